"""Writes mon/meta.json and MANIFEST.json: what each check generates, which monitors must have been
reached for its silence to count, what it assumes."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
SESS = ("Cases are sessions: a random valid optimizer configuration (optimizer, topology, swarm shape, options, bounds, handlers, clamp, "
        "initial positions) with one to three optimize() calls (row-wise, scripted or noisy objectives incl. ties, NaN, inf; return types; "
        "keyword arguments; resets), plus a fixed list of directed sessions. ")
A_SESS = ["numpy, scipy and multiprocessing are correct", "objectives return one number per particle",
          "options are finite numbers, bounds satisfy lower < upper within +-1e150",
          "user keyword arguments are not named like parameters of optimize()/compute_objective_function()"]
A_STAT = ["statistical verdicts use error probabilities below 1e-9 per test; deviations too small for the sample sizes are not seen"]

M = {
    "C01": (SESS + "Parallel runs log their evaluations to a file.", ["calls_judged", "evaluated_positions", "ties_at_best", "runs_with_nan", "parallel_rows"], A_SESS,
            "every evaluation is recorded at the objective and the returned pair compared with all of them"),
    "C02": (SESS, ["iterations", "improvements", "particles_with_result"], A_SESS,
            "running minima recomputed from the recorded evaluations against every history entry and the final swarm"),
    "C03": (SESS + "Parallel cases vary process counts and swarm sizes.", ["evaluations", "parallel_blocks", "runs_with_tolerance", "verbose_runs"], A_SESS,
            "trace check of the objective's call log (shapes, counts, arguments, row blocks) against iterations and histories"),
    "C04": (SESS, ["snapshots", "reverified_entries", "continued_runs"], A_SESS,
            "private copies taken online at every evaluation, compared with the histories then and after all later runs"),
    "C05": (SESS + "All are bounded; boxes, clamps and coefficients include extreme ones.", ["coordinates", "overshooting_coordinates"], A_SESS,
            "every evaluated, recorded and current coordinate against the box, without tolerance"),
    "C06": ("Random position matrices, boxes and call sequences per strategy, including positions astronomically far away, plus moves through compute_position.",
            ["coordinates_out", "coordinates_in", "uniformity_samples", "budgeted_calls", "far_repairs"],
            ["positions are finite floating-point numbers", "bounds satisfy lower < upper"] + A_STAT,
            "documented equations evaluated independently, bit-equality of untouched coordinates, executed-line budget, uniformity and independence tests"),
    "C07": (SESS + "Plus direct handler and compute_velocity calls on random matrices.", ["velocities", "direct_velocities", "particles_out", "at_limit"], A_SESS,
            "every recorded velocity against the clamp; direct calls against the documented rule"),
    "C08": (SESS, ["particle_moves", "steps", "repaired_particles", "pure_inertia_steps"], A_SESS + [
            "random factors are judged as intervals here (their distribution is C09)", "neighbourhoods of Pyramid and Random are those the topology reports (they are judged in C10)"],
            "interval arithmetic on consecutive history entries with all admissible attractors"),
    "C09": ("Prepared swarms for which each random factor can be solved from the velocity equation, recorded runs of every optimizer, generators and random schedules.",
            ["uniformity_samples", "independence_pairs", "run_factors"], A_STAT,
            "factors recovered from the observed velocities; uniformity, independence and duplicate tests"),
    "C10": ("Swarms of random, coinciding, lattice, clustered and collinear layouts; making one particle the only best reveals its followers, hence the graph; several rounds per topology object.",
            ["graphs", "probed_edges", "redraws", "static_rounds", "tied_calls"], ["Delaunay triangulations by scipy/Qhull are correct", "distance ties may be broken either way"],
            "black-box probing of the complete neighbourhood graph against distances, triangulations and graph axioms"),
    "C11": ("Scripted best-cost sequences with plateaus around the window length and changes around the threshold, per optimizer and repeated call.",
            ["stopping_runs", "full_runs"], ["comparisons within rounding of the threshold are generated only where the exact result is unambiguous"],
            "the stopping iteration observed against the documented rule"),
    "C12": ("Direct handler calls for random options, strategies, end values and iterations, and sessions whose coefficients are read at every evaluation.",
            ["coefficients", "scheduled_runs"], ["the random strategy is judged by its range here and by its distribution in C09"],
            "documented formulas evaluated independently against observed coefficients; snapshots of the user's dictionaries"),
    "C13": ("Serial/parallel twins over process counts, swarm sizes, optimizers and injected worker delays; errors in chosen chunks.",
            ["twins", "batches", "worker_errors"], ["objectives are picklable and return one number per row", "SystemExit/KeyboardInterrupt in a worker is outside of what multiprocessing.Pool supports"],
            "flocked per-call log written from the worker processes, equality with the serial twin, process table after the call"),
    "C14": ("Twins (same random state) with disturbances before, between and inside of the runs; interleaved, nested, threaded and fresh-process runs; shared argument objects.",
            ["twins", "disturbing_runs", "nested_runs", "argument_sets", "interleavings", "process_twins", "thread_switches_between_evaluations"], A_SESS,
            "bit-equality with an undisturbed twin; deep copies of all user arguments; behavioural monitors per optimizer in interleaved and threaded runs"),
    "C15": ("Optimizers with various pasts (converged, stopped, failed, scheduled, parallel), reset and run next to a fresh twin.",
            ["twins"], A_SESS, "attributes after reset() and bit-equality of the next run with a new optimizer's"),
    "C16": ("Random shapes, boxes, centers, clamps and initial positions for every generator and optimizer; single-entry faults in initial positions.",
            ["generated_coordinates", "generated_permutations", "generated_bits", "rejected_initial_positions", "accepted_initial_positions", "rejected_bounds"], A_STAT,
            "every generated matrix and every rejection against the arguments"),
    "C17": ("BinaryPSO sessions and prepared velocity matrices.", ["judged_bits", "probability_bins", "saturated_bits", "particle_moves", "independence_pairs"], A_STAT,
            "bit range, Bernoulli law per probability bin and independence over recorded runs; neighbourhoods through the velocity law"),
    "C18": ("Random, boundary, special and adversarially searched points per function; single-coordinate domain faults; column counts; layouts.",
            ["values", "rejections", "boundary_acceptances", "rejected_columns", "searched_points", "documented_points"],
            ["coordinates are not NaN", "levi follows its current definition (no single published formula)"],
            "independent scalar formulas, row independence, rejection monitor, local search below the documented minimum"),
    "C19": ("Random scalar functions (return types, keyword arguments, errors) under the decorator, and decorated runs against vectorized ones.",
            ["scalar_calls", "rejected_returns", "raised_errors", "decorated_runs"], ["an additional call of the function in the error path is allowed"],
            "a recording scalar function under the decorator"),
    "C20": ("Random grids and ranges with scripted scores on a recording optimizer class, and real searches.",
            ["candidates", "real_searches", "uniformity_samples"], A_STAT, "calls received by the optimizer class and the returned pair against the grid and the scores"),
    "C21": ("Runs of every optimizer with and without verbosity, captured at the file descriptors; reporters over levels, configuration sources and targets, also in fresh processes.",
            ["quiet_runs", "verbose_runs", "bar_states", "records", "messages", "prints", "prints_at_threshold", "fresh_processes"],
            ["the logging configuration is process-wide: that of the latest Reporter counts"], "every byte on descriptors 1 and 2, every log record and file line"),
    "C22": ("Histories, limits, steps, functions, designers, canvases and process counts.", ["cost_plots", "frames", "mesh_points", "histories_3d", "parallel_meshes", "points"],
            ["matplotlib draws what its artists hold", "meshes have at least 2 x 2 points"], "a recording movie writer that reads the artists of every drawn frame; points the meshed function was asked for"),
    "C23": ("Sessions with a failure injected at a chosen evaluation (any iteration, exception type, serial or in a worker), followed by normal and reset runs.",
            ["failures", "worker_failures", "runs_after_failure", "reset_twins"], A_SESS, "fault injection with all run monitors before and after the failure, process table"),
    "C24": ("Valid configurations with exactly one planted fault, over all optimizers and topologies; valid ones at the edges; junk for every backend operation; imports.",
            ["rejections", "accepted", "modules", "exported_names"], ["a topology parameter missing for GeneralOptimizerPSO may surface as KeyError or TypeError"],
            "exception type and moment (construction, first move) against the documented ones"),
    "C25": ("Random swarms in several memory layouts, also read-only, through every operation; custom loops over topologies, handlers and calling styles.",
            ["calls", "equivalences", "replaced", "kept", "loop_iterations", "pool_evaluations", "overshooting_coordinates"],
            ["vh_strategy 'adjust' is left out of the motion law (known finding of C08)"],
            "bit-exact snapshots around each call, replay from the same random state, run monitors on custom loops"),
    "C27": ("User-written topologies (own best, own velocities, own positions, partly or fully scripted, extra options), built-in topologies with one method replaced, user-written optimizers on both base classes; random configurations, repeated calls, resets, serial and parallel.",
            ["topology_calls", "evaluations", "overridden_runs", "discrete_swarms", "runs", "parallel_runs"], A_SESS,
            "everything the package passes to and takes from user code is recorded and compared with the run's trace"),
    "C26": ("Sessions of random optimizers under unusual process settings; repeated construction, runs (serial, parallel, failing, interrupted, stopped early) and disposal of optimizers, searches, plots, reporters and rejected configurations; fresh processes.",
            ["settings_compared", "inside_objective", "resources_compared", "weakly_watched", "repetitions", "fresh_processes"],
            ["the logging configuration, the report file, numpy's global generator and open figures are documented effects", "what tqdm and multiprocessing start once per process is theirs"],
            "snapshots of process-wide settings before, inside of and after every use; descriptor, thread, child and handler counts and weak references over repetitions; files of fresh processes"),
    "C28": ("Pairs of runs from the same random state whose inputs are related: more or fewer iterations, with and without a tolerance, costs under strictly increasing maps, space scaled by powers of two or reflected, and optimizers that are the same search under different names; random configurations.",
            ["entries_compared", "prefixes", "stopped_prefixes", "transformed_runs", "scaled_runs", "mirrored_runs", "equal_runs"],
            A_SESS + ["schedules that depend on the number of iterations are left out of the prefix relation", "ties in cost or distance may be broken either way and are left out where the relation would fix them",
                      "runs whose numbers overflow or underflow are left out of the scaling relations"],
            "the complete traces of two related runs compared bit for bit under the relation that the documented rules imply"),
}

meta = {k: {"rule": v[0], "required": v[1], "assumptions": v[2]} for k, v in M.items()}
with open(os.path.join(HERE, "mon", "meta.json"), "w") as f:
    json.dump(meta, f, indent=1)

checks = []
for k, v in M.items():
    checks.append({
        "property": k,
        "quick_cmd": "%s run.py %s --tier quick" % (PY, k),
        "thorough_cmd": "%s run.py %s --tier thorough" % (PY, k),
        "evidence_file": "evidence/%s.json" % k,
        "technique": "runtime monitoring: " + v[3],
        "level": "exploration",
        "level_note": "No violation among the executions monitored (counts in the evidence file); nothing is claimed about executions not run. Assumes: " + "; ".join(v[2]) + ".",
    })
manifest = {"version": 1, "setup_cmd": "%s -m compileall -q mon run.py" % PY, "checks": checks, "not_applicable": [],
            "notes": "No hooks: all monitors attach to public boundaries of the unmodified package, imported from /repo's working tree. "
                     "known_findings.json lists recorded and repaired defects; a violation's replay file is re-executed by run.py PROPERTY --replay FILE."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
