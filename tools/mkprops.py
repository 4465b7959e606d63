#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the texts live here so they can be edited comfortably)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=hook)))

PF = "oneka/probabilityfield.py"; CZ = "oneka/capturezone.py"; ST = "oneka/stochastic.py"
DE = "oneka/deterministic.py"; MO = "oneka/model.py"; UT = "oneka/utilities.py"
ON = "oneka/oneka.py"; AR = "oneka/archive.py"; VZ = "oneka/visualize.py"; RU = "runme.py"

prop("C01", "Growing the probability grid never loses or moves a recorded result",
     "Whenever the probability field is made to cover a rectangle, the rectangle ends up strictly inside the grid, the grid never shrinks and grows only by whole rows and columns of its fixed spacing (no more of them than needed once it exists). Every accumulated probability, the marks of the realization in progress and the total weight keep their value at the same world coordinates, and every new node is empty. The reported limits, row and column counts and array shapes always agree; a reversed rectangle or a non-positive spacing is refused and changes nothing.",
     ["inputs", "histories"], "every sequence of create / grow / mark / register / reset operations, any spacing (also different in x and y), any origin, growth in any combination of directions",
     "One test grows an empty grid once and then asks for a rectangle already inside; no test has any content in the grid when it grows, and none grows to the left or downwards.",
     [PF], [("ProbabilityField.expand", PF), ("ProbabilityField.__init__", PF)],
     ["ProbabilityField attributes after every operation"],
     [("pgrid, rgrid", "accumulated weight and current marks per node", PF), ("xmin..ymax, nrows, ncols", "window of the lattice that is stored", PF)])

prop("C02", "A track marks exactly the grid nodes within the umbra of it",
     "After a particle track is rasterized, the nodes marked for the current realization are those marked before plus exactly the nodes of the lattice whose distance to some segment of the track is less than the umbra; the grid has grown as needed, so no such node is ever missing. This does not depend on how the track is oriented or split into segments, on what was rasterized before, or on where the grid happens to lie, and zero-length segments count as points. Rasterizing changes no accumulated probability.",
     ["inputs", "histories"], "every track (also degenerate, vertical, horizontal, reversed, far outside the grid), umbra and spacing, after every history of earlier operations",
     "The tests evaluate the distance function at a single point; insert and rasterize are marked TODO and never run.",
     [PF], [("ProbabilityField.rasterize / insert", PF), ("ProbabilityField.distancesquared", PF), ("ProbabilityField.expand", PF)],
     ["rgrid, pgrid and the grid limits after each rasterize"],
     [("rgrid", "marks of the realization in progress", PF)])

prop("C03", "Each realization counts once, with its weight, at exactly its nodes",
     "Registering a realization adds its weight exactly once to every node marked since the previous registration or reset, however many tracks or segments marked it, adds it once to the total, and clears the marks; resetting clears the marks and changes nothing else. Hence at any time the value at a node is the exact sum of the weights of the registered realizations that came within the umbra of it, independent of their order and of any grid growth in between, and value divided by total lies in [0, 1].",
     ["histories", "inputs"], "every history of rasterize / insert / grow / register / reset, any non-negative weights (also fractional and large ones) and any number of realizations",
     "No test calls register or reset at all.",
     [PF], [("ProbabilityField.register", PF), ("ProbabilityField.reset", PF)],
     ["pgrid, rgrid, total_weight after each operation"],
     [("pgrid", "accumulated weight per node", PF), ("total_weight", "normalizing weight", PF)])

prop("C04", "A backtrace covers exactly the requested time in admissible steps",
     "A completed backtrace starts with the given starting point, takes steps that are each shorter than the maximum space step, always advances in the direction of time asked for (negative durations trace the other way) and ends at exactly the requested duration: neither short of it nor beyond it. This holds for very short and very long durations, fast and slow flow, and flow that is zero.",
     ["inputs"], "every start, duration of either sign, tolerance, maximum step and velocity field",
     "No test runs the tracer.",
     [CZ], [("compute_backtrace step control", CZ)],
     ["vertices returned by compute_backtrace"],
     [("t, dt", "elapsed time and proposed step", CZ)])

prop("C05", "A backtrace follows the flow field within its tolerance",
     "Every vertex of a backtrace lies on the exact trajectory of the velocity field through the starting point, and the last one at the position reached after exactly the requested duration, up to an error of the order of the given tolerance per step: a step whose estimated local error exceeds the tolerance is never accepted. Tightening the tolerance therefore brings the path to the exact trajectory.",
     ["inputs"], "every smooth velocity field (uniform, sheared, rotating, stretching, radial), start, duration, tolerance and maximum step",
     "No test runs the tracer, so the integrator's coefficients and its error control are unchecked.",
     [CZ], [("Dormand-Prince coefficients and error estimate", CZ)],
     ["vertices returned by compute_backtrace"])

prop("C06", "A failing velocity ends only its own trace, keeping what was traced",
     "If the velocity cannot be evaluated at some moment (dry aquifer, singular point) or is not finite, tracing that particle ends: the path returned is exactly the part completed before that moment, the event is reported as a warning in the Oneka run log, and tracing always terminates. No other particle of the capture zone is affected, and the realization is still registered once with its weight.",
     ["fault_sequences", "inputs"], "a failure or a non-finite velocity at any evaluation of any particle, or in any region of the plane",
     "No test exercises a failing velocity function.",
     [CZ, MO], [("exception handling in compute_backtrace", CZ), ("AquiferError", MO)],
     ["vertices, log records of the logger 'Oneka', pgrid and total_weight"])

prop("C07", "An interrupted run never produces a result",
     "If the user interrupts a run (or the process is asked to exit) at any moment of the particle tracking, the interrupt reaches the caller: it is never turned into a shortened path. The realization in progress is not registered, so the field holds complete realizations only, and no archive is written.",
     ["crash_points"], "an interrupt at every velocity evaluation of every particle of every realization",
     "Tests never interrupt anything.",
     [CZ, ST, ON], [("exception handling in compute_backtrace", CZ), ("registration after all tracks", CZ), ("archive after all realizations", ON)],
     ["exception at the caller, total_weight/pgrid, files in the working directory"])

prop("C08", "A capture zone is one registration of all its uniformly spread particles",
     "Computing a capture zone traces exactly the requested number of particles, started at equal angles on the circle one metre outside the target well's radius, each with the given duration, tolerance and maximum step. The nodes within the umbra of any of the resulting paths, and no others, receive the given weight once, the total weight grows by that weight once, and nothing of the realization remains unregistered.",
     ["inputs", "histories"], "every target position and radius, particle count, duration, umbra, weight and flow field, on a fresh or an already used probability field",
     "No test computes a capture zone.",
     [CZ, PF], [("compute_capturezone", CZ)],
     ["probability field after the call, starting points seen by the velocity function"])

prop("C09", "A stochastic run registers N complete, self-consistent realizations",
     "A stochastic run of N realizations registers exactly N realizations of weight one, each traced with the requested number of particles from the target well. Within one realization every particle sees the same aquifer and the same flow; its conductivity, porosity, thickness and each well's discharge are drawn afresh from their own distributions and lie within them, well positions and radii and the base elevation are as given, and the confined shortcut is used exactly when asked for. No realization is influenced by an earlier one.",
     ["inputs", "histories"], "every configuration of distributions (constant, uniform, triangular), wells, target index, particle count and number of realizations, and every outcome of the random draws",
     "No test runs the Monte Carlo loop.",
     [ST], [("create_stochastic_capturezone", ST)],
     ["parameters of the model whenever a velocity is evaluated, registrations, final field"])

prop("C10", "A realization's regional flow is a draw from that realization's own fit",
     "In each realization the six regional-flow coefficients used for tracing are a random draw from the multivariate normal distribution whose mean and covariance are the fit to the given observations under that same realization's aquifer properties and discharges, about the target well as origin. Different realizations get independent draws.",
     ["inputs", "histories"], "every configuration and every realization of a run",
     "No test runs the Monte Carlo loop; the test of the fit looks at one data set.",
     [ST, MO], [("fit then multivariate_normal", ST), ("Model.fit_regional_flow", MO)],
     ["coefficients in the model whenever a velocity is evaluated, compared with a fresh fit"])

prop("C11", "A deterministic run uses the mean of everything and is reproducible",
     "A deterministic run traces one capture zone with the mean conductivity, porosity, thickness and discharges and with the fitted regional flow itself, all observations given and the target well as origin. Its field has total weight one and values of zero or one only, and it is the same every time, whatever the state of the random generators and whatever was run before.",
     ["inputs", "histories"], "every configuration of distributions, wells, target index and observations",
     "No test runs the deterministic driver.",
     [DE], [("create_deterministic_capturezone", DE), ("compute_variate_mean", ST)],
     ["parameters of the model whenever a velocity is evaluated, final field"])

prop("C12", "Valid distributions are sampled within their support and law; others are refused",
     "A scalar, a (min, max) pair or a (min, mode, max) triple, given as tuple or list, is accepted as a distribution exactly if it is ordered and within the allowed bounds. Every accepted distribution whose members and width are finite can be sampled and averaged: samples lie in its support and follow the constant, uniform or triangular law with that minimum, mode and maximum, and the mean is that law's mean. A tuple or list of any other length is refused by sampling and averaging.",
     ["inputs"], "every scalar, pair, triple or malformed argument, every bound, including zero-width and negative distributions",
     "No test touches the distributions.",
     [ST], [("generate_random_variate", ST), ("compute_variate_mean", ST), ("isdistribution", ST)],
     ["return values and exceptions"])

prop("C13", "Potential and discharge obey superposition, and discharge is minus the gradient",
     "At every location the discharge potential is the regional quadratic about its local origin plus Q/(4 pi) times ln(r^2) for every well, and the discharge vector is minus its gradient. The contribution of the wells alone does not depend on the regional flow, and neither depends on the order of the wells.",
     ["inputs"], "every set of coefficients, local origin, wells of either sign, and every location away from the wells",
     "The tests evaluate the potential and the discharge at one point of one model whose local origin is (0, 0) and whose coefficients are nearly all equal, so exchanged terms go unnoticed.",
     [MO], [("Model.compute_potential", MO), ("Model.compute_potential_wells_only", MO), ("Model.compute_discharge", MO)],
     ["return values"])

prop("C14", "Head is defined exactly where the aquifer is wet, and inverts the potential",
     "Where the potential is not positive the head is refused with the aquifer error; elsewhere it is the unique positive head whose unconfined potential (head at most the thickness) or confined potential (head at least the thickness) is the one given, measured from the aquifer base. It is continuous and strictly increasing in the potential across the change from unconfined to confined.",
     ["inputs"], "every potential, conductivity and thickness, including the exact transition and values next to it",
     "One head, far in the confined range, is tested.",
     [MO], [("Model.compute_head", MO)], ["return values and AquiferError"])

prop("C15", "Velocity is discharge over porosity and saturated thickness",
     "The seepage velocity is the discharge divided by the porosity and by the saturated thickness: the head where the aquifer is unconfined, the aquifer thickness where it is confined. A location where the aquifer is dry is refused with the aquifer error; the confined shortcut never refuses and agrees with the general velocity wherever the aquifer is confined.",
     ["inputs"], "every model, every location in unconfined, confined and dry parts, including the transition",
     "Two velocities in the confined range of one model are tested; the shortcut and the unconfined branch never.",
     [MO], [("Model.compute_velocity", MO), ("Model.compute_velocity_confined", MO)], ["return values and AquiferError"])

prop("C16", "The fit is the weighted least-squares estimate with its covariance",
     "Fitting returns the coefficients that minimize the squared differences between the potentials of the observed heads, minus the effect of the wells, and the regional flow, each weighted by the inverse variance of that potential (confined or unconfined according to the head, first-order second-moment), and their covariance; heads that a regional flow and the wells reproduce exactly give that flow back. The model takes over the fitted coefficients and origin. An observation at or below the aquifer base is refused with a range error, and then the model is unchanged.",
     ["inputs"], "every set of observations that determines the coefficients, any mixture of confined and unconfined heads, standard deviations, wells, base elevation and origin",
     "One data set with equal standard deviations, all heads confined, is tested to three digits; weights and the unconfined branch are never exercised.",
     [MO], [("Model.construct_fit", MO), ("Model.compute_fit", MO), ("Model.fit_regional_flow", MO)],
     ["returned mean and covariance, model attributes after the call"])

prop("C17", "Models do not share state",
     "The regional-flow coefficients of a model change only through that model: by assignment, by in-place modification of the model's own coefficients, or by fitting it. Creating, changing or fitting another model, or later modifying an array that was passed in or returned by a fit, never changes them, and every model created without coefficients starts with six zeros.",
     ["histories"], "every interleaving of creating, assigning, modifying and fitting several models",
     "Every test uses one fresh model.",
     [MO], [("Model.coef setter", MO)], ["Model.coef of every live model after every operation"])

prop("C18", "Exactly the observations within the buffer of a well are removed",
     "The observations used by a run are those whose distance to every well is greater than the buffer; an observation within (or at) the buffer of any well is removed, whichever well it is. The others keep their values and their relative order, the lists passed in are not modified, and every removal is logged.",
     ["inputs"], "every list of observations, wells and buffer distance",
     "No test filters observations.",
     [UT, ON], [("filter_obs", UT)], ["returned list, log records"])

prop("C19", "Duplicate observations are merged into their minimum-variance average",
     "Observations less than one metre from an earlier retained observation are merged into one at that location, whose head is the average weighted by inverse variance and whose standard deviation is that of this average; the order and position in the list of the duplicates do not matter. An observation one metre or more away from every earlier retained one is kept as it is, so no two retained observations are closer than one metre.",
     ["inputs"], "every list of observations: duplicates adjacent or not, any number in a group, any standard deviations, near-duplicates",
     "No test filters observations.",
     [UT], [("filter_obs duplicate grouping", UT)], ["returned list"])

prop("C20", "Invalid configurations are rejected before anything is computed",
     "A run with any parameter outside its documented type or range (target index, particle count, duration, distributions, wells, fewer than seven observations given or left after filtering, standard deviations, buffer, spacing, umbra, smoothing, flags, tolerances; times, places, sizes and heads that are not finite) raises an error before any capture zone is computed and leaves no archive behind. Every valid configuration, including one that leaves optional parameters out, which then take their documented defaults, is accepted and runs to completion.",
     ["configurations"], "every combination of valid and invalid values of every parameter of the entry point",
     "No test calls the entry point.",
     [ON], [("assertions in oneka()", ON)], ["exception or completion, files written, models and fields created"])

prop("C21", "Archives are faithful, never overwritten and never half-read",
     "Every completed run leaves one new archive that, when loaded, gives back every parameter of the run (the observations as given, before filtering) and its probability field, each under its own name and equal to the original. Archives of earlier runs are never altered, also not by runs ending at the same instant. Loading a truncated or damaged archive never yields anything but an error or the complete original.",
     ["histories", "crash_points"], "every sequence of runs, every set of parameters, every point at which writing may have been cut off",
     "No test archives anything.",
     [AR], [("dump_oneka", AR), ("load_oneka", AR)], ["files in the working directory, value of load_oneka"])

prop("C22", "Reported capture areas are those of the probability field",
     "The impact table lists the probability of every grid node in descending order, each with the area of that many cells, so that an area is reported with the least probability captured over it. The decile table in the log takes its rows from it: for each threshold 0.05, 0.10, ... 0.95 the first entry of it whose probability is not above the threshold, with that entry's area in square metres and acres. The area of a deterministic capture zone is the area of exactly the cells that are captured; a field without any realization is refused.",
     ["inputs"], "every probability field (any shape, spacing, weights), including empty and completely captured ones",
     "No test calls the reporting functions.",
     [VZ, ON], [("create_impact_plot", VZ), ("create_deterministic_plot", VZ), ("decile loop in oneka()", ON)],
     ["returned tables and areas, log records"])

prop("C23", "Every configured parameter reaches its own role in the run",
     "Running a data module through the driver performs the run that the module describes: each parameter governs its own role (target, particles, duration, realizations, aquifer, distributions, wells, observations, buffer, spacing, umbra, smoothing, confinement, tolerance, step), one realization means the deterministic and more than one the stochastic calculation, and the tracing sees the filtered observations. The resulting field is the one archived and returned, and an unknown module is reported without running anything.",
     ["configurations"], "every data module with pairwise different parameter values",
     "No test calls the driver or the entry point.",
     [RU, ON, ST, DE], [("main", RU), ("oneka", ON)], ["archive contents, log file, model parameters while tracing, field geometry"])

prop("C24", "The summary table reports the statistics of the retained observations",
     "For every column the summary table reports the count of non-missing values and their minimum, median, maximum, mean and population standard deviation, in the requested formats and under the right names; missing (nan) values are left out of that column only.",
     ["inputs"], "every table of values with any number of rows and columns and any pattern of missing values that leaves at least one in every column",
     "No test calls summary_statistics.",
     [UT], [("summary_statistics", UT)], ["text of the table"])

prop("C25", "The run log tells what the run actually did",
     "The log of a run names every parameter of the run and lists every well and observation given; a stochastic run logs exactly one entry per realization with the aquifer properties, recharge (minus the Laplacian of the potential), fitted and drawn coefficients actually used for tracing; a deterministic run logs those of its one capture zone. Removed, averaged and active observations are logged as they are used.",
     ["inputs", "histories"], "every run, every realization",
     "No test looks at the log.",
     [ON, ST, DE, UT], [("log_the_run", ON), ("log.info calls", ST)], ["records of the logger 'Oneka'"])

prop("C26", "Maps show the field they are made from",
     "The probability map draws, at the world coordinates of each node, the accumulated value divided by the total weight (smoothed only if smoothing is positive) and marks the wells, the target well and the retained observations where they are. Maps of head and potential draw the model's value at each raster location, and leave a location blank where the aquifer is dry. The deterministic map fills exactly the cells that are captured, with the same marks. Drawing never changes the field, and a field without any realization is refused.",
     ["inputs"], "every probability field, smoothing, set of wells and observations; every model and raster",
     "No test draws anything.",
     [VZ], [("create_probability_plot", VZ), ("create_deterministic_plot", VZ), ("contour_head", VZ), ("contour_potential", VZ)],
     ["data handed to matplotlib's axes"])

prop("C27", "Every run has a log file of its own that nothing else touches",
     "Running a data module through the driver leaves exactly one new log file, which holds every record of that run, in order, and nothing of any other run; this also holds for runs that fail, are interrupted, follow each other in one process, or start at the same instant in several. Log files of earlier runs are never altered, and an unknown module leaves none.",
     ["histories", "schedules", "crash_points"], "every sequence of runs in a process and every overlap of runs of several processes, any of them failing or interrupted anywhere",
     "No test calls the driver; two runs in one process or at one instant are never made.",
     [RU, ON], [("main", RU), ("log_the_run", ON)], ["contents of the log files after every run"])

prop("C28", "A call changes only what it is documented to change",
     "No calculation, run, report, plot, or archive operation alters the wells, observations, tables, distributions, arrays, models or fields it is given, or results handed out before - except that fitting or assigning coefficients changes that model and marking or registering that field; a refused call changes nothing. Settings of the process are as before after every call, and only stochastic calculations draw from the random generators.",
     ["histories", "inputs"], "every sequence of calls on shared objects, failing calls and edits by the user included",
     "Tests use fresh objects for every call and never look at the arguments afterwards.",
     [UT, ST, DE, VZ, AR, "oneka/model.py", "oneka/probabilityfield.py", ON],
     [("filter_obs", UT), ("create_stochastic_capturezone", ST), ("create_probability_plot", VZ), ("dump_oneka", AR)],
     ["contents of all objects, settings and generator states after every call"])

prop("C29", "A capture zone does not depend on how the situation is described",
     "The deterministic capture zone of one physical situation is the same zone wherever the origin of coordinates and the datum of elevations lie, in whatever order or form (lists or tuples, whole or decimal numbers) wells and observations are given, and whether a distribution or its mean, one observation or its equivalent duplicates are given; turning or mirroring the situation turns or mirrors the zone and its regional flow. It is also the same when conductivity, porosity and discharges are all scaled alike, with or without the confined shortcut where the aquifer is confined, and on a finer grid at the common nodes.",
     ["inputs"], "every deterministic configuration whose particles do not end in a sink, every motion of the plane that maps start points to start points, every order and form",
     "Tests compute nothing end to end, and never the same situation twice.",
     [ON, DE, CZ, MO, PF, UT], [("oneka", ON), ("create_deterministic_capturezone", DE), ("compute_capturezone", CZ), ("fit_regional_flow", MO)],
     ["nodes of the field, coefficients, ends of the particles of two related runs"])

prop("C30", "More particles, umbra or duration never lose a part of a capture zone",
     "Multiplying the number of particles, enlarging the umbra or extending the duration of a deterministic capture zone only adds nodes to it; no node captured before is lost (up to the tolerance of the tracing at the last step).",
     ["inputs"], "every deterministic configuration whose particles do not end in a sink, every multiple of particles, larger umbra and longer duration",
     "Tests compute no capture zone, let alone two comparable ones.",
     [CZ, PF, DE], [("compute_capturezone", CZ), ("rasterize", PF), ("create_deterministic_capturezone", DE)],
     ["nodes of the field of two related runs"])

prop("C31", "As uncertainty vanishes a stochastic run becomes the deterministic one",
     "If every distribution has zero width (or is a scalar) and the observations are measured without doubt, every realization of a stochastic run captures the capture zone of the deterministic run of the same configuration: all probabilities are zero or one, and they are one exactly on that zone. If only the porosity is uncertain, every node of the deterministic zone for the largest porosity has probability one, and no node outside the deterministic zone for the smallest porosity has any. Probabilities are always whole numbers of realizations.",
     ["inputs"], "every configuration whose particles do not end in a sink, in every form of a distribution of zero width, any number of realizations; porosities of any range",
     "Tests run neither a stochastic nor a deterministic capture zone.",
     [ST, DE, CZ, PF, UT], [("create_stochastic_capturezone", ST), ("create_deterministic_capturezone", DE), ("register", PF)],
     ["nodes of the fields of a stochastic and a deterministic run"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
