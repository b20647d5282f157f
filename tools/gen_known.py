"""Writes known_findings.json. Only entries with status "known" are consulted by the checks (and only
for failures carrying their key); entries with status "fixed" document repairs and suppress nothing."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
known = [{
    "property": "C08", "key": "adjust-freezes-swarm", "status": "known",
    "what": "vh_strategy='adjust' in an optimizer: the velocity becomes the previous displacement (zero at the start), so the particles ignore the velocity equation and never move (GlobalBestPSO, LocalBestPSO, GeneralOptimizerPSO; BinaryPSO ignores its attractors)",
}]
fixed = [
    ("97ab2db", "C10", "Pyramid and Random crashed with an inhomogeneous-shape ValueError on neighbour lists of different lengths (every swarm whose particles have different numbers of neighbours)"),
    ("60b65b8", "C10", "Ring left a particle out of its own neighbourhood when positions coincide, and with k=1 neighbor_idx changed its shape, so a static LocalBestPSO(k=1) failed in its second iteration"),
    ("0c5890d", "C01", "Star returned an empty best position while no cost was finite (first evaluations inf or NaN), which then crashed the velocity update"),
    ("c3c40ba", "C01", "a second optimize() call returned the first call's better cost and position although its own objective never produced them"),
    ("e80dedb", "C05", "the shrink strategy returned positions a few ulps outside of the bounds"),
    ("cc69bb8", "C06", "bounds given as lists crashed several boundary strategies"),
    ("5297b59", "C06", "shrink and intermediate crashed on the first call of a fresh handler"),
    ("704bf65", "C07", "velocity strategies zero and adjust ignored the clamp"),
    ("c1fbe22", "C07", "invert multiplied a particle's velocity twice (z squared) if it exceeded a lower and an upper bound at once"),
    ("13e6dec", "C12", "the random options strategy raised KeyError without end_opts, i.e. in every optimizer"),
    ("2ecb5f4", "C06", "reflective needed a number of steps proportional to the distance (practically endless far away)"),
    ("07212b7", "C14", "swarms created without options shared one mutable default dictionary"),
    ("28b7aa2", "C17", "BinaryPSO compared all particles of a dimension with one shared random number"),
    ("003352b", "C08", "integer initial positions could not be moved (casting error)"),
    ("a2990db", "C16", "generate_swarm accepted initial positions of another shape than the swarm"),
    ("e8a8e9b", "C22", "plot_surface drew on axes that did not belong to the figure (empty plot)"),
    ("4b149c4", "C13", "more processes than particles handed empty chunks to the objective"),
    ("b868893", "C14", "Designer and Mesher shared their default label, limit and level lists between instances"),
    ("504a209", "C10", "Pyramid with dimensions + 1 particles, a single simplex, could not be triangulated"),
    ("c5c9744", "C24", "pyswarms.base.__all__ lacked a comma, so 'from pyswarms.base import *' failed"),
    ("eeb3b9a", "C06", "the random boundary strategy put all out-of-bounds particles on one point"),
    ("f129813", "C13", "worker processes outlived optimize()"),
    ("61eaceb", "C13", "a StopIteration raised by the objective in a worker was swallowed and truncated the costs"),
    ("7f64c33", "C16", "generate_discrete_swarm accepted initial positions of another shape than the swarm"),
    ("bb97079", "C18", "the documented minimum of eggholder was neither attained at the documented point nor minimal"),
    ("372d883", "C23", "after an error of the objective optimize() could hang for ever: Pool.terminate() deadlocks while workers still send results"),
    ("5d68197", "C03", "optimize() raised TypeError if a keyword argument for the objective was named swarm or pool"),
    ("cc27528", "C21", "a run with verbose=False printed RuntimeWarnings to stderr if the tolerance was zero, costs were infinite or a BinaryPSO's velocities large"),
    ("29aa890", "C06", "shrink and intermediate kept the caller's own array as the previous positions: in a loop that moves its positions in place (x += v; x = bh(x, bounds)) shrink returned NaN and intermediate positions outside of the bounds; adjust saw no motion"),
    ("4e97afa", "C04", "histories held the swarm's own arrays: a user's topology that moves the swarm in place, or a user who moves it after an early stop, changed entries recorded before"),
    ("b3b66eb", "C26", "after a failure of the function in plot_contour, plot_surface or compute_history_3d with n_processes the worker processes stayed as long as the error was kept"),
    ("cff0ed5", "C14", "the swarm's positions were the user's init_pos array itself, which a topology or loop that moves in place then modified"),
]
out = {"findings": known + [{"property": p, "key": "fixed-" + c, "status": "fixed", "commit": c, "what": "fixed: property=%s %s %s" % (p, c, w)} for c, p, w in fixed]}
with open(os.path.join(HERE, "known_findings.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
