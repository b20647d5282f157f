"""C06: boundary strategies. Oracle: the documented equations evaluated independently, the
handler's previous output as previous position, a step budget and uniformity tests."""
import sys

import numpy as np

from pyswarms.backend import operators as op
from pyswarms.backend.handlers import BoundaryHandler
from pyswarms.backend.swarms import Swarm

from .. import env
from .. import monitors as M
from .. import oracle as O
from .. import sessions as S
from .. import stats
from .. import work as W

MODES = ["inside", "near", "far", "veryfar", "mix", "mix", "mix", "onebad", "ulp", "at", "corner", "hair"]


class Budget(Exception):
    pass


class StepBudget:
    """Counts executed lines of /repo code during a call (sys.monitoring)."""

    def __init__(self, limit):
        self.limit, self.n = limit, 0

    def __enter__(self):
        m = sys.monitoring
        m.use_tool_id(3, "verif")
        m.register_callback(3, m.events.LINE, self.on_line)
        m.set_events(3, m.events.LINE)
        return self

    def on_line(self, code, line):
        if not code.co_filename.startswith(env.REPO):
            return sys.monitoring.DISABLE
        self.n += 1
        if self.n > self.limit:
            raise Budget()

    def __exit__(self, *a):
        m = sys.monitoring
        m.set_events(3, 0)
        m.register_callback(3, m.events.LINE, None)
        m.free_tool_id(3)
        m.restart_events()


def cases(tier, seed):
    rng = S.rng_for("C06", seed, tier)
    i = 0
    boxes = {
        "unit": [[0.0, 0.0], [1.0, 1.0]], "mixed": [[-3.0, 0.1], [2.5, 0.3]], "ints": [[-1.0, 2.0], [2.0, 3.0]],
        "ulp": [[1.0, -0.3], [1.0000000000000002, -0.29999999999999993]], "tiny": [[0.7, 1e-12], [0.7000001, 2e-12]],
        "huge": [[-1e12, -1e3], [1e15, 1e9]], "far": [[1e6, -1e6 - 2], [1e6 + 1, -1e6]],
    }
    for bh in W.BH:
        for b in ([[0.0, 0.0], [1.0, 1.0]], [[-1.0, -2.5], [0.0, 0.0]], [[0.0, -3.0], [1e-3, 0.0]]):
            for j in range(4):
                yield {"kind": "seq", "seed": 7000 + j, "bh": bh, "bounds": b, "bounds_as": "array", "n": 15, "mode": ["hair", "hair", "mix", "ulp"][j], "steps": 4, "via": ["handler", "op"][j % 2]}
    for bn in boxes:
        for bh in W.BH:
            for mode in ("near", "far", "veryfar", "mix", "ulp", "at", "corner"):
                for via in ("handler", "op", "inplace"):
                    i += 1
                    yield {"kind": "seq", "seed": i, "bh": bh, "bounds": boxes[bn], "bounds_as": ["array", "list", "listofarrays"][i % 3],
                           "n": 9, "mode": mode, "steps": 5, "via": via}
    for bh in W.BH:
        for b in ([[0.0], [1.0]], [[-1e-3], [1e-3]], [[-5.0], [7.0]]):
            for far in (1e3, 1e6, 1e9, 1e12):
                yield {"kind": "steps", "seed": i, "bh": bh, "bounds": b, "far": far}
    for j in range(6 if tier == "quick" else 40):
        yield {"kind": "uniform", "seed": 31 * j + seed, "d": [1, 2, 3, 5][j % 4], "n": [400, 1500, 60][j % 3]}
    for bh in W.BH:
        for n, d, steps in [(150, 2, 3), (1030, 2, 2), (3, 65, 3), (2, 300, 2), (3, 2, 60), (2, 1, 300)]:
            for mode in ("mix", "near", "onebad"):
                i += 1
                yield {"kind": "seq", "seed": i, "bh": bh, "bounds": W.gen_bounds(rng, d), "bounds_as": "array", "n": n, "mode": mode, "steps": steps, "via": ["handler", "op", "memory", "inplace"][i % 4]}
    for j in range(2600 if tier == "quick" else 40000):
        d = int(rng.integers(1, 8))
        yield {"kind": "seq", "bh": W.pick(rng, W.BH), "bounds": W.gen_bounds(rng, d), "bounds_as": W.pick(rng, ["array", "list", "listofarrays", "ints"]),
               "n": int(W.pick(rng, [1, 2, 5, 17, 60])), "mode": W.pick(rng, MODES), "steps": int(rng.integers(1, 8)),
               "via": W.pick(rng, ["handler", "op", "memory", "inplace"]),
               "as": W.pick(rng, ["plain", "plain", "plain", "fortran", "strided"])}


def strayed(rng, n, lb, ub, mode, t):
    """Positions relative to the box."""
    s = ub - lb
    d = len(lb)
    inside = lb + rng.random((n, d)) * s
    inside = np.clip(inside, lb, ub)
    if mode == "inside":
        return inside
    if mode == "at":
        return np.where(rng.random((n, d)) < 0.5, lb, ub) * np.ones((n, d))
    if mode == "ulp":
        e = np.where(rng.random((n, d)) < 0.5, np.nextafter(lb, -np.inf), np.nextafter(ub, np.inf))
        return np.where(rng.random((n, d)) < 0.5, inside, e)
    if mode == "hair":  # by far less than anything else in the box
        off = 10.0 ** rng.uniform(-322, -4, (n, d))
        return np.where(rng.random((n, d)) < 0.4, inside, np.where(rng.random((n, d)) < 0.5, lb - off, ub + off))
    scale = {"near": 0.3, "far": 30.0, "veryfar": 1e8, "mix": None, "onebad": 2.0, "corner": 1.5}[mode]
    if scale is None:
        scale = 10.0 ** rng.uniform(-3, 6, (n, d))
    off = rng.random((n, d)) * scale * s
    side = rng.random((n, d)) < 0.5
    out = np.where(side, lb - off, ub + off)
    if mode == "corner":
        return out
    if mode == "onebad":
        x = inside.copy()
        i = int(rng.integers(n))
        x[i, int(rng.integers(d))] = out[i, int(rng.integers(d))]
        return x
    # whole particles stay inside in some rows
    m = (rng.random((n, d)) < 0.4) & (rng.random((n, 1)) < 0.7)
    return np.where(m, out, inside)


def run(spec, mon):
    return globals()["k_" + spec["kind"]](spec, mon)


def dressed(y, how):
    """The same values in another memory layout."""
    if how == "fortran":
        return np.asfortranarray(y)
    if how == "strided":
        z = np.full((2 * len(y), 2 * y.shape[1]), np.nan)
        z[::2, 1::2] = y
        return z[::2, 1::2]
    return y.copy()


def conv(spec):
    return W.make_bounds({"bounds": spec["bounds"], "bounds_as": spec["bounds_as"]})


def k_seq(spec, mon):
    rng = np.random.default_rng(spec["seed"])
    lb, ub = (np.array(b, float) for b in spec["bounds"])
    bounds = conv(spec)
    bh = BoundaryHandler(strategy=spec["bh"])
    n = spec["n"]
    mem = None
    if spec["via"] == "memory":
        # what the optimizers do before the first move
        mem = strayed(rng, n, lb, ub, "inside", 0)
        bh.memory = mem.copy()
    x = strayed(rng, n, lb, ub, "inside", 0)
    for t in range(spec["steps"]):
        y = strayed(rng, n, lb, ub, spec["mode"], t)
        with StepBudget(3000 + 300 * n * len(lb)) as sb:
            try:
                if spec["via"] == "op":
                    v = y - x
                    y = x + v
                    sw = Swarm(position=x.copy(), velocity=v.copy(), options={"c1": 1, "c2": 1, "w": 1})
                    got = op.compute_position(sw, bounds, bh)
                    mon.check(np.array_equal(sw.position, x) and np.array_equal(sw.velocity, v), "compute_position modified the swarm")
                elif spec["via"] == "inplace":
                    # a loop that moves its one array of positions in place
                    if t == 0:
                        own = np.array(y, copy=True)
                    own[...] = y
                    got = own = bh(own, bounds)
                else:
                    got = bh(dressed(y, spec.get("as")), bounds)
            except Budget:
                mon.check(False, "%s: the number of steps grows with the distance from the bounds" % spec["bh"], y=y)
                return
        mon.count("budgeted_calls")
        got = np.asarray(got)
        o = O.outside(got, lb, ub)
        mon.check(not o.any(), "%s returned a position outside of the bounds" % spec["bh"], y=y[o][:3], got=got[o][:3], lb=lb, ub=ub)
        msg = O.bh_compare(spec["bh"], y, got, lb, ub, mem)
        mon.check(msg is None, "%s does not follow its documented equation" % spec["bh"], why=msg, step=t)
        same = ~O.outside(y, lb, ub)
        if spec["bh"] in ("shrink", "random"):
            same = np.broadcast_to(same.all(axis=1, keepdims=True), same.shape)
        mon.check(np.array_equal(got[same], y[same]), "%s changed what was inside of the bounds" % spec["bh"])
        mon.count("coordinates_in", int(same.sum()))
        mon.count("coordinates_out", int((~same).sum()))
        mon.check(all(np.array_equal(a, b) for a, b in zip(bounds, (lb, ub))), "the bounds were modified")
        mem = np.array(got, copy=True)
        x = np.array(got, copy=True)


def k_steps(spec, mon):
    """Far-away particles: deterministic step count, no wall clock."""
    lb, ub = (np.array(b, float) for b in spec["bounds"])
    n = 4
    counts = []
    for far in (2.0, spec["far"]):
        bh = BoundaryHandler(strategy=spec["bh"])
        bh.memory = np.tile((lb + ub) / 2, (n, 1))
        y = np.array([[lb[0] - far * (ub - lb)[0] * k] if k % 2 else [ub[0] + far * (ub - lb)[0] * k] for k in range(1, n + 1)])
        with StepBudget(3000) as sb:
            try:
                got = bh(y.copy(), (lb, ub))
            except Budget:
                mon.check(False, "%s: the number of steps grows with the distance from the bounds" % spec["bh"], distance=far)
                return
        counts.append(sb.n)
        mon.check(not O.outside(got, lb, ub).any(), "far particle not repaired")
        msg = O.bh_compare(spec["bh"], y, got, lb, ub, np.tile((lb + ub) / 2, (n, 1)))
        mon.check(msg is None, "%s does not follow its documented equation" % spec["bh"], why=msg)
    mon.count("far_repairs")
    mon.seen("line_counts", counts)


def k_uniform(spec, mon):
    rng = np.random.default_rng(spec["seed"])
    d, n = spec["d"], spec["n"]
    lb = rng.uniform(-5, 1, d)
    ub = lb + rng.uniform(0.1, 4, d)
    U = []
    bh = BoundaryHandler(strategy="random")
    for t in range(6):
        y = np.where(rng.random((n, d)) < 0.5, lb - 1, ub + 3)
        if t % 2 and d > 1:
            # one coordinate out is enough
            y = lb + rng.random((n, d)) * (ub - lb)
            y[:, int(rng.integers(d))] = ub.max() + 9
        got = np.asarray(bh(y.copy(), (lb, ub)))
        mon.check(not O.outside(got, lb, ub).any(), "random left the bounds")
        U.append((got - lb) / (ub - lb))
    stats.matrix_independent(np.clip(np.array(U), 0, 1), mon, "random boundary strategy", d=d, n=n)
