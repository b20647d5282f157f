"""C25: backend operations are pure functions of their arguments and fit for custom loops. Monitors:
bit-exact snapshots of every argument around each call, replay of the call from the same random state
(also with other swarms in between), element-wise oracle for the personal bests, and the C01/C05/C07/C08
monitors on custom loops."""
import copy
import math
import multiprocessing as mp

import numpy as np

import pyswarms.backend as P
from pyswarms.backend.handlers import BoundaryHandler, OptionsHandler, VelocityHandler
from pyswarms.backend.swarms import Swarm

from .. import core
from .. import monitors as M
from .. import oracle as O
from .. import sessions as S
from .. import work as W

ATTRS = ("position", "velocity", "n_particles", "dimensions", "options", "pbest_pos", "best_pos", "pbest_cost", "best_cost", "current_cost")
VH = ["unmodified", "invert", "zero", "adjust"]


def cases(tier, seed):
    rng = S.rng_for("C25", seed, tier)
    q = 1 if tier == "quick" else 12
    topos = list(W.TOPO)
    for i in range(900 * q):
        yield {"kind": "ops", "topo": topos[i % 5], "static": bool(rng.random() < 0.5), "s": int(rng.integers(1 << 30)),
               "layout": W.pick(rng, ["c", "f", "view", "int", "f32", "readonly", "readonly"])}
    for i in range(500 * q):
        yield {"kind": "pbest", "s": int(rng.integers(1 << 30))}
    for i in range(700 * q):
        c = W.gen_conf(rng, opt="general", topo=topos[i % 5], p_oh=0.3)
        if c["vh"] == "adjust":
            c["vh"] = "unmodified"
        call = W.gen_call(rng, c["n"])
        call["iters"] = int(min(call["iters"], 25 if c["topo"] in ("star", "ring") else 12, max(3, 2000 // (c["n"] * c["d"]))))
        call["kwargs"] = {}
        yield {"kind": "loop", "conf": c, "calls": [call], "style": W.pick(rng, ["ops", "topology", "doc", "inplace"]),
               "memory": bool(rng.random() < 0.5), "second": bool(rng.random() < 0.3)}
    for k, s in enumerate(S.extremes(tier, light=True) + S.extremes(tier, light=True, bounds=lambda d: [[-1.0] * d, [1.5] * d], bh="periodic", vh="invert", clamp=[-0.4, 0.7])):
        if s["conf"]["opt"] == "general":
            yield {"kind": "loop", "conf": s["conf"], "calls": s["calls"][:1], "style": ["ops", "topology", "inplace"][k % 3], "memory": bool(k % 2), "second": False, "seed": 600 + k}
    for i in range(6 * q):
        yield {"kind": "pool", "s": int(rng.integers(1 << 30)), "procs": int(rng.integers(1, 5))}


def run(spec, mon):
    return globals()["k_" + spec["kind"]](spec, mon)


# ------------------------------------------------------------ helpers

def snap(obj):
    """Bit-exact description of arrays/containers (dtype, shape, bytes)."""
    if isinstance(obj, np.ndarray):
        return ("a", obj.dtype.str, obj.shape, np.ascontiguousarray(obj).tobytes())
    if isinstance(obj, (list, tuple)):
        return (type(obj).__name__, tuple(snap(o) for o in obj))
    if isinstance(obj, dict):
        return ("d", tuple((k, snap(v)) for k, v in obj.items()))
    return ("v", type(obj).__name__, repr(obj))


def swarm_snap(s):
    return {k: snap(getattr(s, k)) for k in ATTRS}, {k: id(getattr(s, k)) for k in ATTRS if isinstance(getattr(s, k), np.ndarray)}


def lay(a, how):
    a = np.array(a)
    if how == "f":
        return np.asfortranarray(a)
    if how == "view":
        big = np.full(tuple(2 * m for m in a.shape), -77.0, dtype=a.dtype)
        v = big[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if how == "int":
        return np.round(a).astype(int)
    if how == "f32":
        return a.astype(np.float32)
    if how == "readonly":
        a = a.copy()
        a.setflags(write=False)
        return a
    return a


def random_swarm(rng, topo, layout="c", n=None, d=None):
    free = d is None
    d = d or int(rng.integers(2, 5))
    n = n or int(W.pick(rng, [3, 4, 5, 7, 10, 20, 35, 70 if topo in ("random", "pyramid") else 150], [.15, .17, .17, .17, .15, .1, .06, .03]))
    if free and topo != "pyramid" and d == 4 and rng.random() < 0.3:
        d = int(W.pick(rng, [1, 9, 33]))
    if topo == "pyramid" and n >= d + 2 and layout in ("int",):
        layout = "c"
    sc = float(W.pick(rng, [1.0, 5.0, 0.01]))
    if layout == "int":
        sc = 5.0
    x, v, pb = (rng.normal(size=(n, d)) * sc for _ in range(3))
    pc = rng.normal(size=n)
    if rng.random() < 0.3:
        pc = np.round(pc)
    if rng.random() < 0.2:
        pc[rng.random(n) < 0.4] = np.inf
    cc = np.where(rng.random(n) < 0.3, pc, rng.normal(size=n))
    if rng.random() < 0.3:
        cc[rng.random(n) < 0.3] = np.nan
    opts = {"c1": float(rng.uniform(0, 2)), "c2": float(rng.uniform(0, 2)), "w": float(rng.uniform(-1, 1)), "note": [1, 2]}
    s = Swarm(position=lay(x, layout), velocity=lay(v, layout), options=opts, pbest_pos=lay(pb, layout),
              pbest_cost=lay(pc, "readonly" if layout == "readonly" else "c"), current_cost=lay(cc, "readonly" if layout == "readonly" else "c"))
    if rng.random() < 0.7:
        s.best_pos = lay(pb[int(np.argmin(pc))] if (topo == "star" or rng.random() < 0.4) else pb[rng.integers(0, n, n)], layout if layout != "view" else "c")
        s.best_cost = float(np.min(pc)) if rng.random() < 0.5 else float(rng.normal())
    return s


def topo_opts(rng, topo, n, d):
    if topo == "ring":
        return {"p": int(rng.integers(1, 3)), "k": int(rng.integers(1, n + 1))}
    if topo == "vonneumann":
        return {"p": int(rng.integers(1, 3)), "r": int(W.pick(rng, [r for r in range(4) if W.delannoy(d, r) <= n]))}
    if topo == "random":
        return {"k": int(rng.integers(1, max(2, n - 1)))}
    return {}


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.array_equal(a, b, equal_nan=a.dtype.kind == "f" and b.dtype.kind == "f")


def same_out(a, b):
    if isinstance(a, tuple):
        return isinstance(b, tuple) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return same(a, b)


# ------------------------------------------------------------ purity

def k_ops(spec, mon):
    rng = np.random.default_rng(spec["s"])
    s = random_swarm(rng, spec["topo"], spec["layout"])
    n, d = s.n_particles, s.dimensions
    clamp = W.pick(rng, [None, (-0.5, 0.7), [-0.2, 0.2], (np.full(d, -0.4), np.linspace(0.1, 0.5, d))])
    kb = W.pick(rng, ["none", "arrays", "lists", "ints", "readonly"])
    lo, hi = np.full(d, -1.0), np.linspace(0.5, 1.5, d)
    bounds = {"none": None, "arrays": (lo, hi), "lists": (lo.tolist(), hi.tolist()), "ints": (np.full(d, -1), np.full(d, 1))}.get(kb)
    if kb == "readonly":
        lo.setflags(write=False), hi.setflags(write=False)
        bounds = (lo, hi)
    bh_name = W.pick(rng, W.BH)
    vh_name = W.pick(rng, VH) if bounds is not None else W.pick(rng, ["unmodified", "adjust"])
    o = topo_opts(rng, spec["topo"], n, d)
    mk = lambda: W.TOPO[spec["topo"]](static=spec["static"])  # noqa: E731
    VHn = lambda: VelocityHandler(strategy=vh_name)  # noqa: E731
    BHn = lambda: BoundaryHandler(strategy=bh_name)  # noqa: E731
    f = W.RowObj("rastrigin", {"shift": 0.2})
    todo = [
        ("compute_pbest", lambda q: P.compute_pbest(q), True),
        ("compute_velocity", lambda q: P.compute_velocity(q, clamp, VHn(), bounds), True),
        ("compute_position", lambda q: P.compute_position(q, bounds, BHn()), True),
        ("compute_objective_function", lambda q: P.compute_objective_function(q, f), True),
        ("topology.compute_gbest", lambda q: mk().compute_gbest(q, **o), False),
        ("topology.compute_velocity", lambda q: mk().compute_velocity(q, clamp, VHn(), bounds), True),
        ("topology.compute_position", lambda q: mk().compute_position(q, bounds, BHn()), True),
    ]
    if np.size(s.best_pos) == 0:
        # no attractor yet: a velocity cannot be computed
        todo = [t for t in todo if "velocity" not in t[0]]
    other = random_swarm(rng, spec["topo"], "c", n=n + 3, d=d)
    other.best_pos = other.pbest_pos.copy()
    got = {}
    order = list(rng.permutation(len(todo)))
    for i in order:
        name, call, fresh = todo[int(i)]
        args = (clamp, bounds, o)
        before, ids = swarm_snap(s)
        a0 = snap(args)
        st = np.random.get_state()
        out = call(s)
        after, ids2 = swarm_snap(s)
        for k in ATTRS:
            mon.check(before[k] == after[k], "%s modified swarm.%s" % (name, k), topo=spec["topo"], vh=vh_name, bh=bh_name, bounds=kb)
        mon.check(ids == ids2, "%s replaced an array of the swarm" % name, topo=spec["topo"])
        mon.check(a0 == snap(args), "%s modified its arguments" % name, topo=spec["topo"], before=a0, after=snap(args))
        mon.count("calls")
        mon.seen("operation", "%s/%s/%s/%s" % (name, spec["topo"] if "topology" in name else "", vh_name if "vel" in name else "", bh_name if "posi" in name else ""))
        outs = out if isinstance(out, tuple) else (out,)
        if fresh and name != "compute_objective_function":
            for r in outs:
                for k in ATTRS:
                    a = getattr(s, k)
                    if isinstance(a, np.ndarray) and isinstance(r, np.ndarray):
                        mon.check(not np.shares_memory(a, r), "%s returned memory of swarm.%s" % (name, k), topo=spec["topo"], vh=vh_name, bh=bh_name)
                mon.check(np.shape(r) in ((n, d), (n,)), "%s returned shape %s" % (name, np.shape(r)))
        keep = copy.deepcopy(out)
        # again from the same random state: same result, also after serving another swarm
        np.random.set_state(st)
        mon.check(same_out(call(s), keep), "%s gives another result for the same swarm and random state" % name, topo=spec["topo"], vh=vh_name, bh=bh_name)
        call(other)
        np.random.set_state(st)
        mon.check(same_out(call(copy.deepcopy(s)), keep), "%s depends on what other swarms it served" % name, topo=spec["topo"], vh=vh_name, bh=bh_name)
        mon.check(same_out(out, keep), "a result of %s changed when it was called again" % name)
        got[name] = (st, keep)
    # the methods of the topology are the operations
    for op in ("compute_velocity", "compute_position"):
        if op not in got:
            continue
        st, want = got[op]
        np.random.set_state(st)
        t = mk()
        if op == "compute_velocity":
            res = t.compute_velocity(s, clamp, VHn(), bounds)
            res_kw = lambda: t.compute_velocity(swarm=s, clamp=clamp, vh=VHn(), bounds=bounds)  # noqa: E731
        else:
            res = t.compute_position(s, bounds, BHn())
            res_kw = lambda: t.compute_position(swarm=s, bounds=bounds, bh=BHn())  # noqa: E731
        mon.check(same(res, want), "%s of %s differs from the operation" % (op, spec["topo"]), vh=vh_name, bh=bh_name, bounds=kb)
        np.random.set_state(st)
        mon.check(same(res_kw(), want), "%s of %s differs when called with keywords" % (op, spec["topo"]))
        mon.count("equivalences")
    # defaults: no clamp, no bounds, velocities unmodified, positions simply moved
    if np.size(s.best_pos):
        t = mk()
        st = np.random.get_state()
        a = t.compute_velocity(s)
        np.random.set_state(st)
        mon.check(same(a, P.compute_velocity(s, None, VelocityHandler(strategy="unmodified"))), "compute_velocity of %s has other defaults" % spec["topo"])
    mon.check(same(mk().compute_position(s), np.asarray(s.position) + np.asarray(s.velocity)), "compute_position of %s without bounds is not position + velocity" % spec["topo"])
    if bounds is not None and bh_name == "periodic":
        mon.check(same(mk().compute_position(s, bounds), P.compute_position(s, bounds, BoundaryHandler(strategy="periodic"))), "compute_position of %s does not repair periodically by default" % spec["topo"])
    # independence of unrelated attributes
    q = copy.deepcopy(s)
    q.current_cost = np.full(n, -1e9)
    q.best_cost = -1e12 if spec["topo"] != "star" else q.best_cost
    q.velocity = np.asarray(q.velocity) + 1
    for name in ("topology.compute_gbest",):
        if spec["topo"] == "star" and np.size(s.best_pos):
            continue
        st, want = got[name]
        np.random.set_state(st)
        mon.check(same_out(dict((a, b) for a, b, _ in todo)[name](q), want), "%s depends on unrelated attributes" % name, topo=spec["topo"])
    q = copy.deepcopy(s)
    q.current_cost = np.full(n, -1e9)
    q.pbest_cost = np.full(n, 1e9)
    q.best_cost = 3.0
    if "compute_velocity" in got:
        st, want = got["compute_velocity"]
        np.random.set_state(st)
        mon.check(same(P.compute_velocity(q, clamp, VHn(), bounds), want), "compute_velocity depends on costs")
    q.pbest_pos = np.asarray(q.pbest_pos) + 3
    st, want = got["compute_position"]
    np.random.set_state(st)
    mon.check(same(P.compute_position(q, bounds, BHn()), want), "compute_position depends on more than position and velocity")


def k_pbest(spec, mon):
    rng = np.random.default_rng(spec["s"])
    s = random_swarm(rng, "star", W.pick(rng, ["c", "f", "view", "readonly"]), n=int(rng.integers(1, 30)) if spec["s"] % 6 else int(W.pick(rng, [65, 129, 257, 600, 1100])),
                     d=int(rng.integers(1, 6)) if spec["s"] % 5 else int(W.pick(rng, [17, 40, 130])))
    n, d = s.n_particles, s.dimensions
    pc = np.asarray(s.pbest_cost, float).copy()
    kind = rng.integers(0, 9, n)
    cc = np.select([kind == i for i in range(8)],
                   [pc, np.nextafter(pc, -np.inf), np.nextafter(pc, np.inf), np.full(n, np.nan), np.full(n, np.inf), np.full(n, -np.inf), pc - 1, pc + 1], rng.normal(size=n))
    typ = W.pick(rng, ["f8", "f8", "f4", "i8", "masked"])
    if typ == "f4":
        cc = cc.astype(np.float32)
    if typ == "i8":
        cc = rng.integers(-3, 4, n)
        s.pbest_cost = rng.integers(-3, 4, n).astype(float)
        pc = s.pbest_cost.copy()
    s.current_cost = np.ma.array(cc) if typ == "masked" else cc
    pos, cost = P.compute_pbest(s)
    better = np.asarray(cc, float) < pc
    mon.check(np.shape(pos) == (n, d) and np.shape(cost) == (n,), "compute_pbest returns shapes %s, %s" % (np.shape(pos), np.shape(cost)))
    mon.check(np.array_equal(np.asarray(cost, float), np.where(better, np.asarray(cc, float), pc), equal_nan=True),
              "personal best costs are not replaced exactly where the current cost is strictly smaller", current=cc, old=pc, new=cost)
    mon.check(np.array_equal(np.asarray(pos), np.where(better[:, None], s.position, s.pbest_pos)),
              "personal best positions are not replaced exactly where the current cost is strictly smaller", better=better)
    mon.count("replaced", int(better.sum()))
    mon.count("kept", int((~better).sum()))
    # once more: nothing left to replace
    s.pbest_pos, s.pbest_cost = pos, cost
    pos2, cost2 = P.compute_pbest(s)
    mon.check(same(pos2, pos) and same(cost2, cost), "compute_pbest is not idempotent")


# ------------------------------------------------------------ custom loops

class Fake:
    pass


def k_loop(spec, mon):
    c, call = spec["conf"], spec["calls"][0]
    W_seed = spec["seed"]
    n, d, T = c["n"], c["d"], call["iters"]
    rng = np.random.default_rng(W_seed)
    topo = W.rec_topology(c["topo"], c["static"])
    bounds, clamp = W.make_bounds(c), W.make_clamp(c)
    bh, vh = BoundaryHandler(strategy=c["bh"]), VelocityHandler(strategy=c["vh"])
    oh = OptionsHandler(strategy=dict(c["oh"])) if c["oh"] else None
    init = W.make_init(c, W_seed)
    init0 = None if init is None else np.array(init, copy=True)
    swarm = P.create_swarm(n_particles=n, dimensions=d, bounds=bounds, clamp=clamp, options=dict(c["options"]), init_pos=init)
    if spec["memory"]:
        bh.memory = swarm.position.copy()
    start = dict(c["options"])
    keep = snap((bounds, clamp, start))
    top_opts = {k: v for k, v in c["options"].items() if k in ("k", "p", "r") and c["topo"] in ("ring", "vonneumann", "random")}
    if c["topo"] == "random":
        top_opts.pop("p", None), top_opts.pop("r", None)
    fn = W.make_fn(call["obj"], n, W_seed)
    rec = W.Rec(fn, call.get("ret", "plain"), T + 1, None)
    style = spec["style"]
    if style == "doc" and (call["obj"].get("row") not in ("sphere", "rastrigin", "linear", "negsphere", "const") or call.get("ret") != "plain" or c["oh"]):
        style = "topology"
    mon.seen("loops", "%s/%s/%s/%s/%s/%s" % (c["topo"], c["static"], c["bh"] if bounds else "", c["vh"], style, "oh" if oh else ""))
    if style == "inplace" and not (swarm.position.dtype == swarm.velocity.dtype == float):
        style = "ops"
    swarm.pbest_cost = np.full(n, np.inf)
    tr = Fake()
    tr.conf, tr.call, tr.error, tr.h0, tr.kwargs = c, call, None, [0] * 5, {}
    tr.P, tr.V, tr.X, tr.C, tr.hist = [], [], [], [], {"cost_history": []}
    for t in range(T):
        if style == "doc":
            # as in the tutorials: personal bests are re-evaluated before they are compared
            swarm.current_cost = rec(swarm.position)
            if t:
                swarm.pbest_cost = np.asarray(fn(np.asarray(swarm.pbest_pos, float), t, {}), float)
        else:
            swarm.current_cost = P.compute_objective_function(swarm, rec)
        swarm.pbest_pos, swarm.pbest_cost = P.compute_pbest(swarm)
        swarm.best_pos, swarm.best_cost = topo.compute_gbest(swarm, **top_opts)
        tr.hist["cost_history"].append(swarm.best_cost)
        tr.P.append(swarm.position.copy()), tr.V.append(swarm.velocity.copy())
        if oh:
            swarm.options = oh(start, iternow=t, itermax=T)
        if style == "inplace":
            swarm.velocity[...] = P.compute_velocity(swarm, clamp, vh, bounds)
            swarm.position += swarm.velocity
            if bounds is not None:
                swarm.position = bh(swarm.position, bounds)
        elif style == "ops":
            swarm.velocity = P.compute_velocity(swarm, clamp, vh, bounds)
            swarm.position = P.compute_position(swarm, bounds, bh)
        else:
            swarm.velocity = topo.compute_velocity(swarm, clamp, vh, bounds)
            swarm.position = topo.compute_position(swarm, bounds, bh)
    tr.X = [k.x for k in rec.calls]
    tr.C = [k.y for k in rec.calls]
    tr.rec, tr.toplog = rec, topo.log
    b = Fake()
    b.opt, b.conf, b.stale_pb = Fake(), c, None
    b.opt.swarm = swarm
    i = int(np.argmin(swarm.pbest_cost))
    tr.result = (swarm.best_cost, np.array(swarm.pbest_pos[i]))
    mon.check(snap((bounds, clamp, start)) == keep, "a custom loop modified its bounds, clamp or options")
    mon.check(init is None or np.array_equal(init, init0), "a custom loop moved the user's initial positions", got=init, want=init0)
    for k in rec.calls if style != "inplace" else ():
        mon.check(np.array_equal(k.x_ref, k.x), "a matrix of positions was modified after its evaluation", t=k.t)
    M.soundness(tr, b.opt, mon)
    best = np.inf
    for t, y in enumerate(tr.C):
        best = min(best, np.nanmin(y) if not np.isnan(y).all() else np.inf)
        mon.check(float(tr.hist["cost_history"][t]) == best, "best cost of a custom loop is not the smallest so far", t=t, got=tr.hist["cost_history"][t], want=best)
    M.containment(tr, b, mon)
    M.clamped(tr, mon)
    # a fresh shrink/intermediate handler knows no previous positions and falls back to the bounds
    first = None
    if bounds is not None and not spec["memory"] and c["bh"] in ("shrink", "intermediate") and T > 1:
        lb, ub = (np.asarray(q, float) for q in c["bounds"])
        first = M.repaired("nearest", M.np2(tr.P[0]), tr.V[1], M.np2(tr.P[1]), lb, ub)
        mon.check(first is None, "a fresh %s handler does not fall back to the bounds" % c["bh"], why=first)
        tr.skip_position = {0}
    M.motion(tr, b, mon, tr.X[0])
    mon.count("loop_iterations", T)


def square_sum(x):
    # the same number for a row in any batch and memory layout
    return np.array([math.fsum(v * v for v in r) for r in np.asarray(x, float).tolist()])


def weighted(x, pool=None, n=1.0, swarm=0.0, objective=None, func="f"):
    return square_sum(x) * n + swarm + len(func)


def k_pool(spec, mon):
    rng = np.random.default_rng(spec["s"])
    s = random_swarm(rng, "star", W.pick(rng, ["c", "f", "readonly"]), n=int(rng.integers(1, 12)))
    before, ids = swarm_snap(s)
    want = P.compute_objective_function(s, square_sum)
    kw = W.pick(rng, [{}, {"n": 2.5}, {"func": "long", "objective": [1]}, {"n": -1.0, "func": "gg"}])
    kwant = weighted(s.position, **kw)
    mon.check(same(P.compute_objective_function(s, weighted, **kw), kwant), "compute_objective_function drops keyword arguments", kw=kw)
    pool = mp.Pool(spec["procs"])
    try:
        got = P.compute_objective_function(s, square_sum, pool=pool)
        kgot = P.compute_objective_function(s, weighted, pool=pool, **kw)
    finally:
        pool.close()
        pool.join()
    after, _ = swarm_snap(s)
    mon.check(before == after, "compute_objective_function with a pool modified the swarm")
    mon.check(same(got, want), "compute_objective_function with a pool gives other costs", got=got, want=want)
    mon.check(same(kgot, kwant), "compute_objective_function with a pool and keyword arguments gives other costs", kw=kw, got=kgot, want=kwant)
    mon.count("pool_evaluations")
