"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os

P = []
SRC = "pyswarms/"


def prop(id, title, statement, over, text, tests, files, mech, observe=None, state=None):
    a = {"files": [SRC + f for f in files],
         "mechanism": [{"name": n, "where": SRC + w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe:
        a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": tests, "anchors": a})


OPT = ["single/global_best.py", "single/local_best.py", "single/general_optimizer.py", "discrete/binary.py"]
LOOP = [("the optimize() loop of every optimizer", f) for f in OPT]

prop("C01", "The returned solution is the best one evaluated, with its true cost",
     "Every call of an optimizer's optimize() returns a pair (cost, position) where the cost is the smallest cost the objective produced anywhere during that call (NaN counts as no result) and the position is one that was evaluated with exactly that cost. "
     "This holds for every optimizer, topology, handling strategy, serial or parallel evaluation, for infinite, NaN, tied or noisy costs, for coinciding particles and for repeated calls on one optimizer, also with other objectives. "
     "The cost equals the last entry of the cost history, the position has shape (dimensions,), and both are copies that later runs do not change.",
     ["inputs", "configurations", "histories"],
     "all optimizer/topology/strategy configurations, objectives (incl. ties, NaN, inf, noise) and sequences of optimize() calls",
     "Tests look at the shape/type of the result or at a few seeded runs of sphere; they never compare the result with what the objective actually returned, nor repeat optimize() or use ties/NaN.",
     OPT + ["backend/operators.py", "backend/topology/star.py", "backend/topology/ring.py"],
     LOOP + [("compute_pbest", "backend/operators.py"), ("compute_gbest of every topology", "backend/topology")],
     ["objective callback (positions in, costs out)", "return value of optimize()"])

prop("C02", "Best-so-far bookkeeping is exact and never gets worse",
     "Within one optimize() call the cost history never increases and its entry for each iteration equals the smallest cost produced so far in the call; the mean personal-best history is the mean over particles of each particle's own smallest cost so far, and the neighbourhood history equals the best cost. "
     "After the call the swarm's personal-best costs and positions are, for every particle, its own smallest cost in that call and the first position where it was reached, and the swarm's best cost is the minimum of them.",
     ["inputs", "configurations", "histories"],
     "every iteration of every run, any cost sequence (plateaus, ties, NaN, inf, improvement by one ulp), any topology",
     "Tests only check the lengths of the histories; no test relates a history entry to the costs that were produced.",
     OPT + ["backend/operators.py"],
     [("compute_pbest", "backend/operators.py"), ("_populate_history", "base/base_single.py"), ("_populate_history", "base/base_discrete.py")] + LOOP,
     ["cost_history, mean_pbest_history, mean_neighbor_history, swarm.pbest_*", "objective callback"])

prop("C03", "Each particle is evaluated exactly once per iteration",
     "optimize(f, iters) without a tolerance performs exactly iters iterations and calls f exactly once per iteration with the whole current position matrix of shape (n_particles, dimensions); with a tolerance it performs as many iterations as entries appear in the histories. "
     "Every call receives exactly the user's keyword arguments (which may have any names except those of optimize()'s own parameters) and nothing else, whatever verbosity is chosen. "
     "With n_processes the evaluations of one iteration are disjoint consecutive row blocks that together are the position matrix, each row once.",
     ["inputs", "configurations"],
     "all swarm sizes, iteration counts, keyword arguments, optimizers and process counts",
     "Tests use one swarm size and at most two fixed kwargs and never count the evaluations.",
     OPT + ["backend/operators.py"],
     LOOP + [("compute_objective_function", "backend/operators.py")],
     ["objective callback"])

prop("C04", "Recorded histories are faithful, complete and immutable",
     "After t iterations every history has t entries; the t-th position entry is exactly the matrix that was evaluated in iteration t and the t-th velocity entry is the velocity that led to it, both of shape (n_particles, dimensions). "
     "A recorded entry never changes afterwards, neither in the same run nor in later ones, also if a user or the user's own topology moves the swarm in place. "
     "A further optimize() call appends to the histories and continues from the swarm's current positions and velocities.",
     ["histories", "configurations", "inputs"],
     "all runs and sequences of runs of one optimizer, any strategy that edits positions or velocities in place",
     "Tests check shapes after a single run; aliasing between the histories and the live swarm would not be seen.",
     OPT + ["base/base_single.py", "base/base_discrete.py", "backend/operators.py", "backend/handlers.py"],
     [("_populate_history", "base/base_single.py"), ("in-place strategies", "backend/handlers.py"), ("compute_position", "backend/operators.py")],
     ["pos_history, velocity_history", "objective callback"])

prop("C05", "A bounded optimizer never evaluates a position outside of its bounds",
     "If an optimizer is given bounds (lower < upper in every dimension, as arrays or lists), every position it ever hands to the objective or records, from the first iteration of the first call to the last of any later call, satisfies lower <= x <= upper in every coordinate, without tolerance. "
     "This holds for every boundary strategy, velocity strategy, topology, clamp, coefficient choice (also diverging ones) and box, including tiny, huge, asymmetric and mixed ones, as long as the velocities stay finite numbers; nothing is guaranteed only where the user scales the initial positions out of the bounds with center.",
     ["inputs", "configurations", "histories"],
     "every coordinate of every particle in every iteration; all strategies, boxes and coefficients",
     "Tests apply each strategy to a handful of fixed positions once; they do not run optimizers with bounds and look at the positions, nor reach rounding at the bound or repeated overshoot.",
     ["backend/handlers.py", "backend/operators.py", "backend/generators.py"] + OPT,
     [("BoundaryHandler strategies", "backend/handlers.py"), ("compute_position", "backend/operators.py"), ("generate_swarm", "backend/generators.py")],
     ["objective callback", "pos_history"])

prop("C06", "Boundary strategies repair exactly what is out of bounds, as documented",
     "For any finite floating-point positions and any bounds (arrays or lists), each boundary strategy returns positions inside the bounds and follows its documented equation: nearest, reflective, intermediate and periodic change only out-of-bounds coordinates, shrink and random only out-of-bounds particles, everything else is returned bit for bit. "
     "intermediate and shrink use the previous positions (initially those before the first move; a fresh handler without any falls back to the bounds), also if the caller moves its positions in place, random redraws every affected particle uniformly and independently inside the box. "
     "Every repair takes a bounded number of steps however far the particle has strayed.",
     ["inputs", "histories"],
     "all position matrices, boxes and sequences of calls on one handler",
     "Tests feed a few fixed positions per strategy and mostly only check containment or a single hand-computed value.",
     ["backend/handlers.py", "backend/operators.py"],
     [("BoundaryHandler.__call__ and strategies", "backend/handlers.py"), ("compute_position", "backend/operators.py")],
     ["return value of a BoundaryHandler call and of compute_position()"],
     [("handler memory", "positions of the previous step, used by shrink and intermediate")])

prop("C07", "Velocities respect the clamp and the documented velocity strategy",
     "With a velocity clamp every velocity an optimizer records, initial ones included, lies inside the clamp in each coordinate; velocities inside are not altered and those outside land exactly on the limit. "
     "Called directly, unmodified clips, invert multiplies by -z (0.5 by default) exactly the particles that are out of bounds before clipping, zero sets exactly those particles to zero and clips the others, and adjust returns the clipped difference between current and previous positions. "
     "Without a clamp velocities are not limited.",
     ["inputs", "configurations", "histories"],
     "all velocity/position matrices, clamps (scalars or per dimension), strategies and sequences of calls",
     "Tests check a few fixed vectors and never look at recorded velocities of a run.",
     ["backend/handlers.py", "backend/operators.py", "backend/generators.py"],
     [("VelocityHandler strategies", "backend/handlers.py"), ("compute_velocity", "backend/operators.py"), ("generate_velocity", "backend/generators.py")],
     ["return value of a VelocityHandler call, velocity_history"],
     [("handler memory", "positions of the previous step, used by adjust")])

prop("C08", "Every move follows the particle-swarm velocity and position equations",
     "Between consecutive iterations of a continuous optimizer, each velocity coordinate equals w*v + c1*r1*(own best - x) + c2*r2*(neighbourhood best - x), clipped to the clamp, for some r1, r2 in [0, 1], with the coefficients valid in that iteration, the particle's own best so far and its neighbourhood's best so far; the next position is the previous one plus that velocity, repaired by the boundary strategy. "
     "BinaryPSO obeys the same velocity equation. "
     "In particular, terms with a zero coefficient vanish, and with c1 = c2 = 0 the motion is exactly v -> w*v.",
     ["inputs", "configurations", "histories"],
     "every coordinate of every particle in every step of every run",
     "Tests compare compute_velocity only on a fixed example or check shapes; the equations are never checked along a run, across topologies or with schedules and repeated calls.",
     ["backend/operators.py"] + OPT + ["backend/topology/star.py", "backend/topology/ring.py"],
     [("compute_velocity, compute_position, compute_pbest", "backend/operators.py"), ("delegating methods of every topology", "backend/topology")] + LOOP,
     ["velocity_history, pos_history and the objective callback"])

prop("C09", "Stochastic coefficients are uniform and independent",
     "The random factors of the velocity update are uniform on [0, 1] and drawn independently for every particle, every dimension, every iteration and for the cognitive and the social term. "
     "The same holds for the default initial positions (uniform in the box or in [0, 1]), initial velocities (uniform in the clamp or [0, 1]) and for the random options strategy.",
     ["inputs", "configurations", "histories"],
     "the joint distribution of the draws, over swarm shapes and topologies",
     "Unit tests check ranges and shapes; sharing one draw between particles, dimensions or terms keeps all of them valid.",
     ["backend/operators.py", "backend/generators.py", "backend/handlers.py"],
     [("compute_velocity", "backend/operators.py"), ("generate_swarm, generate_velocity", "backend/generators.py"), ("random strategies", "backend/handlers.py")],
     ["compute_velocity on prepared swarms, velocity_history, generators"])

prop("C10", "Topologies connect the documented neighbours and follow the best of them",
     "Each topology returns for every particle the personal-best position of a best particle in its neighbourhood, and as best cost the overall minimum of the personal bests. "
     "Star connects everyone; Ring connects each particle with its k nearest particles under the p-norm including itself; VonNeumann does so with the Delannoy number for range r; Pyramid connects vertices sharing a Delaunay simplex (everyone if there are too few particles to triangulate); Random gives a symmetric connected graph with itself and at least k random others each. "
     "Static variants fix the neighbourhoods at first use, dynamic ones recompute them from the current positions (or redraw them) in every call.",
     ["inputs", "configurations", "histories"],
     "all swarms (incl. coinciding particles and tied costs), k, p, r, static/dynamic, sequences of calls",
     "Tests compare one fixed swarm per topology; ties, coinciding particles, k at its limits and the evolution over calls are not covered, and Pyramid/Random tests failed altogether here.",
     ["backend/topology/star.py", "backend/topology/ring.py", "backend/topology/von_neumann.py", "backend/topology/pyramid.py", "backend/topology/random.py"],
     [("compute_gbest", "backend/topology/" + f) for f in ("star.py", "ring.py", "von_neumann.py", "pyramid.py", "random.py")] + [("delannoy", "backend/topology/von_neumann.py"), ("__compute_neighbors", "backend/topology/random.py")],
     ["return value of compute_gbest(), neighbor_idx"],
     [("neighbor_idx", "neighbourhoods used in the last call")])

prop("C11", "Tolerance stopping happens exactly when the documented rule says so",
     "With tolerance ftol and window ftol_iter (a positive integer), a run stops after iteration i (counted from 0) if and only if i >= ftol_iter and in each of the last ftol_iter iterations the best cost changed by strictly less than ftol*(1 + |previous best cost|); otherwise it continues to the requested number of iterations. "
     "With the default ftol = -inf it never stops early. "
     "The rule is the same for every optimizer, verbosity and for every one of repeated calls, each of which starts with an empty window.",
     ["inputs", "configurations", "histories"],
     "all cost sequences (plateaus of any length, interrupted plateaus, negative and huge costs), ftol, ftol_iter",
     "Tests check that a run with a large ftol ends early for one objective; the boundary cases of the window and of the comparison are not reached.",
     OPT + ["base/base_single.py", "base/base_discrete.py"],
     LOOP, ["number of evaluations", "cost_history"])

prop("C12", "Coefficient schedules follow their formulas and leave user options alone",
     "With an options strategy, the coefficients used for the move after iteration i of n are given by the documented formula (exponential decay with d1 = 0.2 and d2 = 7, linear variation, nonlinear modulation with exponent n = 1.2, uniformly random between start and end) from the user's start value, the end value (w 0.4, c1 0.8 times and c2 1 times the start, random: start + 1, or the given end_opts) and i, n; coefficients without a strategy stay constant. "
     "Each call of optimize() starts the schedule anew from the user's options. "
     "The user's options dictionary is never modified.",
     ["inputs", "configurations", "histories"],
     "all start/end values, iteration counts, mixes of strategies over w, c1, c2, repeated calls, all three continuous optimizers",
     "Tests evaluate each formula at one point; the schedule that a run actually applies is never observed.",
     ["backend/handlers.py", "single/global_best.py", "single/local_best.py", "single/general_optimizer.py"],
     [("OptionsHandler strategies", "backend/handlers.py"), ("options update in the loop", "single/global_best.py")],
     ["return value of an OptionsHandler call, swarm.options seen by the objective, velocity_history"])

prop("C13", "Parallel evaluation gives the same result as serial evaluation",
     "For any number of processes (also more than particles or one) and any picklable row-wise objective, a run with n_processes returns the same result and records the same histories as the serial run from the same random state, with costs matched to their particles. "
     "Each particle is evaluated exactly once per iteration with the user's keyword arguments, no call gets an empty or wrongly shaped batch, and the objective runs in worker processes that are gone after the call. "
     "Objective errors in a worker reach the caller with their type and message.",
     ["schedules", "configurations", "inputs", "fault_sequences"],
     "all process counts, swarm sizes, worker timings (delays), optimizers; errors in any chunk",
     "Tests run two processes once and check only that it works.",
     OPT + ["backend/operators.py"],
     [("compute_objective_function", "backend/operators.py")] + LOOP,
     ["result, histories, per-process log of objective calls, live child processes"])

prop("C14", "Runs are reproducible and isolated from each other",
     "Two runs with the same configuration and the same state of numpy's global random generator give bit-identical results and histories, whatever the verbosity and whatever other optimizers were created or run before, in between (also nested inside of an objective) or after. "
     "Arguments supplied by the user (options, bounds, clamp, initial positions, keyword arguments) are never modified. "
     "No state is shared between instances of optimizers, swarms, handlers, topologies or plot formatters through defaults or class attributes; in particular optimizers running in different threads each stay correct.",
     ["histories", "schedules", "configurations"],
     "all interleavings of construction, runs and customization of several instances",
     "Tests use each instance alone; shared defaults and leaked state are invisible in isolation.",
     OPT + ["backend/swarms.py", "backend/generators.py", "backend/handlers.py", "utils/plotters/formatters.py", "backend/topology/base.py"],
     [("default arguments and attribute defaults", "backend/swarms.py"), ("handler instances", "backend/handlers.py")] + LOOP,
     ["results and histories of paired runs, deep copies of user arguments"])

prop("C15", "reset() returns an optimizer to a fresh state",
     "After reset() all histories are empty, the best and personal-best costs are forgotten, the options are those given by the user, and positions and velocities are newly drawn (or are the user's initial positions) as for a new optimizer. "
     "A run after reset() is bit-identical to a run of a newly constructed and reset optimizer with the same random state, whatever was run before (converged, stopped early, failed, with schedules, with parallel evaluation); static neighbourhoods, which the topology keeps, are the only exception.",
     ["histories", "configurations"],
     "all histories before the reset, all optimizers and strategies",
     "Tests check two attributes after one run.",
     ["base/base_single.py", "base/base_discrete.py"] + OPT,
     [("reset", "base/base_single.py"), ("reset", "base/base_discrete.py"), ("handler memory set-up", "single/global_best.py")],
     ["attributes after reset(), result and histories of the next run"])

prop("C16", "Generated swarms have the requested shape, range and kind",
     "generate_swarm yields (n_particles, dimensions) positions inside the given bounds (in [0, 1] without bounds), multiplied by center, or exactly the given initial positions, which are rejected with ValueError if they have another shape or leave the bounds anywhere. "
     "generate_discrete_swarm yields 0/1 matrices if binary (rejecting initial positions of another shape or with more than two values with ValueError) and otherwise an independent permutation of 0..dimensions-1 per particle; generate_velocity yields velocities inside the clamp, or in [0, 1]. "
     "create_swarm combines them consistently with the given options, and bounds of a wrong length (other than dimensions, or one, which is broadcast) raise ValueError.",
     ["inputs", "configurations"],
     "all shapes, boxes (per-dimension different, negative, tiny), centers, clamps and initial positions",
     "Tests sample a few parametrizations with symmetric identical bounds.",
     ["backend/generators.py", "backend/swarms.py"],
     [("generate_swarm, generate_discrete_swarm, generate_velocity, create_swarm", "backend/generators.py"), ("Swarm", "backend/swarms.py")],
     ["return values of the generators"])

prop("C17", "BinaryPSO keeps binary positions drawn by the sigmoid rule",
     "Every position BinaryPSO evaluates, records or returns consists of zeros and ones (given binary initial positions), as whole numbers. "
     "Each bit of the next position is one with probability 1/(1+exp(-v)) of its own new velocity, drawn independently for every particle, dimension and iteration, and saturates for large |v|. "
     "Neighbourhoods are the k nearest particles by the p-norm, recomputed in every iteration, and velocities obey the clamp.",
     ["inputs", "histories", "configurations"],
     "all runs, velocities (incl. extreme ones), swarm sizes, k, p; the joint distribution of the bits",
     "Tests check that the final position is binary once and cannot see a wrong or shared probability.",
     ["discrete/binary.py", "base/base_discrete.py", "backend/topology/ring.py"],
     [("_compute_position, _sigmoid", "discrete/binary.py"), ("optimize", "discrete/binary.py")],
     ["objective callback, pos_history, velocity_history"])

prop("C18", "Benchmark functions compute their formulas row by row on their domain",
     "Each of the seventeen single-objective functions returns for every row of a position matrix the value of its published formula (for levi: of its documented minimum and current definition), as an array of one value per particle, independent of the other rows and of their order, without changing the input. "
     "The documented global minimum is attained at the documented point(s) and undercut nowhere in the domain. "
     "A matrix with any coordinate outside of the documented domain raises ValueError and a wrong number of columns for a two-dimensional function raises IndexError, while the domain's boundary is accepted.",
     ["inputs"],
     "all positions in and around the domains, matrix sizes, memory layouts",
     "Tests evaluate each function at its minimum (or one more point) and one fixed out-of-domain array, which leaves the formula elsewhere and single outlying coordinates open.",
     ["utils/functions/single_obj.py"],
     [("all objective functions", "utils/functions/single_obj.py")],
     ["return values and exceptions"])

prop("C19", "The cost decorator applies the scalar function to each particle once",
     "A function decorated with cost returns for any matrix of particles the vector of the original function's values in particle order, calling it exactly once per particle with that particle's coordinates and exactly the given keyword arguments. "
     "If the values do not form one number per particle it raises ValueError. "
     "Exceptions of the original function propagate unchanged, its metadata is kept, its input is not modified, and decorated functions work in any optimizer, serial or parallel, like their vectorized equivalents.",
     ["inputs", "programs"],
     "all scalar functions, swarm sizes, keyword arguments and return types",
     "Tests decorate two functions and compare on random swarms of one size.",
     ["utils/decorators/decorators.py"],
     [("cost", "utils/decorators/decorators.py")],
     ["calls of the wrapped function, return value"])

prop("C20", "Hyperparameter search tries every candidate and returns the best one",
     "GridSearch tries exactly the Cartesian product of the listed option values (single values count as one), each combination once; RandomSearch tries exactly n_selection_iters combinations with c1, c2, w inside their ranges, integer k in the half-open range and constant p. "
     "Each candidate is scored by the cost of one fresh optimizer run with the user's swarm size, dimensions, bounds, clamp, objective and iterations. "
     "search() returns the smallest score (the largest with maximum=True) together with exactly the options that produced it, also as attributes, and leaves the user's options unmodified.",
     ["inputs", "configurations"],
     "all option grids and ranges, score landscapes (incl. ties and negative scores), optimizers, repeated searches",
     "Tests run two fixed grids with real optimizers and check types or that max exceeds min.",
     ["utils/search/base_search.py", "utils/search/grid_search.py", "utils/search/random_search.py"],
     [("search, generate_score", "utils/search/base_search.py"), ("generate_grid", "utils/search/grid_search.py"), ("generate_grid", "utils/search/random_search.py")],
     ["constructor and optimize() calls received by the optimizer class, return value"])

prop("C21", "Reporting is truthful and silent when asked to be",
     "With verbose=False a run emits no log record of level INFO or above, no log-file line at the default level and nothing on stdout or stderr. "
     "With verbose=True it shows a progress bar over the iterations whose postfix is the current best cost and which stays on the console when it is complete, and logs at level INFO the start with the iteration count and options and the end with exactly the returned cost and position; neither changes the result. "
     "A Reporter writes messages at or above the configured level, and only those, to its configured targets (log_path, YAML config via config_path or LOG_CFG, given logger or printer), and prints only if the verbosity exceeds the threshold; the logging configuration is that of the most recently created Reporter of the process.",
     ["configurations", "histories"],
     "all optimizers, verbosity settings, log levels, configuration sources",
     "Tests check that files are created and methods are called with mocks.",
     ["utils/reporter/reporter.py"] + OPT,
     [("Reporter", "utils/reporter/reporter.py")] + LOOP,
     ["stdout, stderr, log records, log files"])

prop("C22", "Plots show exactly the data they are given",
     "plot_cost_history draws each history value at its iteration; plot_contour and plot_surface animations show in frame i exactly the i-th recorded positions, one frame per iteration, on axes belonging to the given or a new figure, with the mark and the designer's and animator's settings. "
     "A mesh is the function evaluated at every grid point of the limits and step; compute_history_3d appends to each 2D position its function value. "
     "Both give the same for any number of processes, and inputs are not modified.",
     ["inputs", "configurations", "schedules"],
     "all histories, limits, steps, functions, process counts, canvases",
     "Tests only check the types of the returned objects.",
     ["utils/plotters/plotters.py", "utils/plotters/formatters.py"],
     [("plot_cost_history, plot_contour, plot_surface, _animate, _mesh", "utils/plotters/plotters.py"), ("Mesher.compute_history_3d", "utils/plotters/formatters.py")],
     ["artists of the returned axes/animation, return value of compute_history_3d"])

prop("C23", "A failing objective leaves the optimizer consistent and usable",
     "If the objective raises in any iteration, serially or in a worker process, optimize() raises that error (serially the same object) at once, without another evaluation. "
     "All histories then have exactly one entry per completed iteration, describing these, and no worker process survives. "
     "The optimizer can be run again or reset, and such runs satisfy all guarantees of a normal run.",
     ["crash_points", "fault_sequences", "configurations"],
     "a failure at any iteration of any run, any exception type incl. BaseException, repeated failures, all optimizers",
     "No test lets the objective fail during a run.",
     OPT + ["backend/operators.py"],
     LOOP + [("compute_objective_function", "backend/operators.py")],
     ["exception, histories, live child processes, next run"])

prop("C24", "Invalid configurations are rejected with the documented errors",
     "Missing coefficients c1, c2 or w, missing k, p or r for topologies needing them (a TypeError if GeneralOptimizerPSO's topology lacks its parameter), unknown boundary, velocity or options strategies raise KeyError at the latest in the first move that needs them; a topology that is not a Topology instance, an object without optimize() for a search or a non-integer number of random selections raises TypeError, and ftol_iter that is not a positive integer raises AssertionError; initial positions outside the bounds or of a wrong shape raise ValueError at construction. "
     "Backend operations given something other than a Swarm raise AttributeError, a Swarm with attributes of wrong types raises TypeError, abstract base classes cannot be instantiated. "
     "No invalid configuration silently yields a result, no valid one is rejected, and every exported public name exists.",
     ["inputs", "configurations"],
     "all single-fault mutations of valid configurations, for every optimizer and topology",
     "Tests cover some of the errors for some classes with one fixed value each.",
     OPT + ["backend/handlers.py", "backend/operators.py", "backend/swarms.py", "base/__init__.py", "base/base_single.py", "base/base_discrete.py", "utils/search/base_search.py"],
     [("option and type checks", "single/general_optimizer.py"), ("ftol_iter check", "base/base_single.py"), ("ftol_iter check", "base/base_discrete.py"), ("__call__", "backend/handlers.py")],
     ["raised exceptions"])

prop("C25", "Backend operations are pure functions fit for custom loops",
     "compute_pbest, compute_velocity, compute_position, compute_objective_function and compute_gbest return new values that depend only on the swarm and arguments given (and random draws), and do not modify the swarm, its arrays, the bounds or the clamp. "
     "compute_pbest replaces a personal best exactly where the current cost is strictly smaller; the methods of every topology compute the same as the corresponding operations. "
     "A custom loop built from them with any topology and handlers satisfies the same soundness, containment, clamping and motion guarantees as the built-in optimizers.",
     ["programs", "inputs", "histories"],
     "all swarms and custom loops over topologies and handlers",
     "Tests check single operations on one fixture swarm for shape or value, never that inputs are left alone or that a custom loop stays sound.",
     ["backend/operators.py", "backend/topology/base.py", "backend/topology/star.py", "backend/topology/ring.py", "backend/topology/pyramid.py", "backend/topology/random.py", "backend/topology/von_neumann.py", "backend/handlers.py"],
     [("all operators", "backend/operators.py"), ("compute_gbest, compute_velocity, compute_position", "backend/topology")],
     ["deep copies of the swarm before and after, return values"])

prop("C26", "The process is left as it was found",
     "Apart from the documented effects (logging configuration and report file, draws from numpy's global generator, figures returned by plots), neither importing the package nor creating, running, resetting or failing an optimizer, search, decorated function, reporter or plot changes the state of the process, not even while the objective runs: "
     "numpy's error handling and print options, warning filters, signal handlers, Python's own random generator, multiprocessing's start method, matplotlib's settings, the working directory, the environment and the standard streams stay what the user made them, and importing draws no random numbers. "
     "However often any of these is repeated, no open files, threads, child processes, temporary files or logging handlers accumulate, and optimizers that are no longer referenced are freed together with their swarms and histories.",
     ["histories", "inputs"],
     "all histories of uses and failures in one process",
     "Tests never look at process-wide state or at resources after many repetitions.",
     ["backend/operators.py", "base/base_single.py", "base/base_discrete.py", "single/global_best.py", "single/local_best.py", "single/general_optimizer.py", "discrete/binary.py", "utils/reporter/reporter.py", "utils/search/base_search.py", "utils/plotters/plotters.py", "utils/plotters/formatters.py"],
     [("optimize", "single/global_best.py"), ("_setup_logger", "utils/reporter/reporter.py"), ("compute_objective_function", "backend/operators.py")],
     ["process-wide settings, descriptors, threads, children, weak references"])

prop("C27", "Extensions written by users are honoured",
     "GeneralOptimizerPSO drives any user-written Topology: once per iteration, after the evaluation, compute_gbest gets the swarm with the positions and costs just computed, current personal bests and all of the user's options as keyword arguments; what it returns is what compute_velocity then finds as the swarm's best, together with the user's clamp, bounds and handler; the velocities and then the positions it returns are the ones recorded and evaluated next. "
     "Replacing a single method of a built-in topology has the same effect. "
     "Optimizers written by inheriting from SwarmOptimizer or DiscreteSwarmOptimizer get the constructor's arguments as attributes, a swarm generated from them (bounded, permutations unless binary), empty histories and a working reset().",
     ["programs", "histories", "inputs"],
     "all user-written topologies and optimizers, options, handlers and calls",
     "Tests only use the built-in topologies and never a user-written one in an optimizer.",
     ["single/general_optimizer.py", "base/base_single.py", "base/base_discrete.py", "backend/topology/base.py", "backend/topology/star.py", "backend/topology/ring.py", "backend/topology/pyramid.py", "backend/topology/random.py", "backend/topology/von_neumann.py", "backend/generators.py"],
     [("optimize", "single/general_optimizer.py"), ("__init__, reset", "base/base_single.py"), ("__init__, reset", "base/base_discrete.py"), ("abstract methods", "backend/topology/base.py")],
     ["arguments of the topology's methods, evaluated positions, histories, attributes"])

prop("C28", "Related runs are related as the documented rules imply",
     "From the same random state: a run with fewer iterations, or one stopped by a tolerance, is bit for bit the beginning of a longer one (unless a schedule depends on the number of iterations), so more iterations never give a worse result. "
     "Only the order of the costs matters: a strictly increasing transformation of the objective leaves every position and velocity unchanged and transforms the best costs. "
     "Multiplying bounds, clamp and initial positions by a power of two, with the objective scaled accordingly, multiplies every position and velocity by it; reflecting space (star topology; nearest, shrink, intermediate) reflects the run. "
     "GlobalBestPSO is GeneralOptimizerPSO with Star and LocalBestPSO the one with Ring; VonNeumann is the static Ring with the Delannoy number as k, and Ring with all particles and Pyramid with too few particles to triangulate are Star, up to ties.",
     ["inputs", "histories"],
     "all pairs of related runs: configurations, objectives, iteration counts, transformations",
     "Tests compare single results with expected numbers; relations between two runs hold for every configuration and objective.",
     ["single/global_best.py", "single/local_best.py", "single/general_optimizer.py", "backend/operators.py", "backend/handlers.py", "backend/topology/star.py", "backend/topology/ring.py", "backend/topology/von_neumann.py", "backend/topology/pyramid.py"],
     [("optimize", "single/global_best.py"), ("optimize", "single/general_optimizer.py"), ("compute_pbest, compute_velocity, compute_position", "backend/operators.py"), ("compute_gbest", "backend/topology/ring.py")],
     ["evaluated positions, histories and results of both runs"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
