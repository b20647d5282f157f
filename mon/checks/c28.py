"""C28: related runs. Monitors: the complete evaluation and history traces of two or more runs from the same
random state whose inputs are related; the oracle is the relation the documented rules imply, bit for bit."""
import copy

import numpy as np

import pyswarms as ps
from pyswarms.backend.topology import Pyramid, Ring, Star, VonNeumann

from .. import sessions as S
from .. import work as W

MONOTONE = ["double", "cube", "exp", "shift", "negrec", "steps", "halve", "table", "ulps", "negulps", "denormal", "astronomic"]


def cases(tier, seed):
    rng = S.rng_for("C28", seed, tier)
    q = 1 if tier == "quick" else 12
    for k in range(330 * q):
        c = W.gen_conf(rng, p_oh=0.2, p_ftol=0.0)
        if c["oh"]:
            c["oh"] = {s: "random" for s in c["oh"]}
        call = W.gen_call(rng, c["n"])
        a, b = sorted(int(v) for v in rng.integers(1, [14, 40, 90][k % 3], 2))
        yield {"kind": "prefix", "conf": c, "obj": call["obj"], "short": a, "long": b + 1, "ftol": W.pick(rng, [None, None, 0.0, 1e-6, 0.01, 0.3, 1.0]), "ftol_iter": int(W.pick(rng, [1, 2, 4, 9]))}
    for k, long in enumerate([101, 129, 150, 201, 257, 301, 501, 513, 1001, 1025] * (1 if tier == "quick" else 5)):
        for opt, topo in S.ALL_KINDS[:4] + S.ALL_KINDS[-1:]:
            c = S.base_conf(opt, n=4, d=2, topo=topo, options={"c1": 1.3, "c2": 1.2, "w": 0.7})
            if opt != "binary" and k % 2:
                c.update(bounds=[[-1.0, -2.0], [2.0, 1.5]], bh=W.BH[k % 6], vh=["invert", "zero", "unmodified"][k % 3])
            if rng.random() < 0.5:
                c["clamp"] = [-0.5, 0.6]
            yield {"kind": "prefix", "conf": c, "obj": {"row": ["rastrigin", "weird", "step"][k % 3], "params": {"shift": 0.3}}, "short": int(rng.integers(2, 100)), "long": long,
                   "ftol": [None, 1e-9][k % 2], "ftol_iter": 30}
    for k in range(330 * q):
        c = W.gen_conf(rng, p_oh=0.3)
        yield {"kind": "order", "conf": c, "T": int(W.pick(rng, [2, 5, 12, 30])), "map": MONOTONE[k % len(MONOTONE)], "src": W.pick(rng, ["fine", "coarse", "holes", "script"])}
    for k in range(330 * q):
        while True:
            c = W.gen_conf(rng, p_oh=0.3)
            # Qhull works with absolute tolerances; unscaled draws need a box and a clamp
            if c["opt"] != "binary" and c["topo"] != "pyramid" and (c["bounds"] or c["init"]) and c["center"] == 1.0:
                break
        if c["clamp"] is None:
            c["clamp"] = W.gen_clamp(rng, c["d"])
        if c["init"] == "int":
            c["init"] = "float"
        yield {"kind": "scale", "conf": c, "T": int(W.pick(rng, [2, 5, 12, 30])), "log2": int(W.pick(rng, [1, -1, 3, -4, 10, -12, 40, -40])), "fn": W.pick(rng, ["sphere", "rastrigin", "linear", "step", "weird", "infregion", "nanregion"])}
    for k in range(240 * q):
        c = W.gen_conf(rng, opt=["gbest", "general"][k % 2], topo="star", p_oh=0.3)
        c["topo"] = "star" if k % 2 else None
        if c["bh"] not in ("nearest", "shrink", "intermediate"):
            c["bh"] = W.pick(rng, ["nearest", "shrink", "intermediate"])
        c["init"] = c["init"] or "float"
        c["center"] = 1.0
        c["oh"] = {s: v for s, v in (c["oh"] or {}).items() if v != "random"} or None
        yield {"kind": "mirror", "conf": c, "T": int(W.pick(rng, [2, 5, 12, 30])), "fn": W.pick(rng, ["sphere", "rastrigin", "linear", "step", "weird"])}
    for k in range(330 * q):
        how = ["gbest-star", "lbest-ring", "vonneumann-ring", "ring-star", "pyramid-star", "lbest-gbest"][k % 6]
        c = W.gen_conf(rng, opt="gbest", p_oh=0.3, p_ftol=0.3)
        n = c["n"]
        o = c["options"]
        for key in ("k", "p", "r"):
            o.pop(key, None)
        if how == "pyramid-star":
            n = int(rng.integers(1, c["d"] + 1))
        if how in ("lbest-ring",):
            o.update(k=int(rng.integers(1, n + 1)), p=W.pick(rng, [1, 2]))
        if how in ("ring-star", "lbest-gbest"):
            o.update(k=n, p=W.pick(rng, [1, 2]))
        if how == "vonneumann-ring":
            n = max(n, int(W.pick(rng, [1, 1, 60, 130, 200])))
            if c["d"] > 7:
                c.update(d=3, bounds=None, vh="unmodified", clamp=None, center=1.0)
            r = W.pick(rng, [r for r in range(0, 6) if W.delannoy(c["d"], r) <= n])
            o.update(r=r, p=W.pick(rng, [1, 2]), k=W.delannoy(c["d"], r))
        c["n"] = n
        if how != "gbest-star" and c["init"] in ("same", "dups", "corner"):
            c["init"] = "float"  # distances without ties
        yield {"kind": "equal", "how": how, "conf": c, "T": int(W.pick(rng, [2, 5, 12, 30])), "fn": W.pick(rng, ["sphere", "rastrigin", "linear", "weird"])}


def run(spec, mon):
    with np.errstate(all="ignore"):
        return globals()["k_" + spec["kind"]](spec, mon)


# --------------------------------------------------------------- instruments
def go(c, seed, fn, T, make=None, prepare=None):
    """One run: everything that was evaluated, recorded and returned."""
    np.random.seed(seed % 2**32)
    opt = make() if make else W.build(c, seed, record_topo=False).opt
    if prepare:
        prepare(opt)
    X, Y = [], []

    def f(x):
        y = fn(np.array(x, dtype=float), len(X))
        X.append(np.array(x, copy=True))
        Y.append(np.array(y, copy=True))
        return y

    cost, pos = opt.optimize(f, T, verbose=False)
    return {"X": X, "Y": Y, "cost": float(cost), "pos": np.array(pos, copy=True), "V": [np.array(v, copy=True) for v in opt.velocity_history],
            "P": [np.array(v, copy=True) for v in opt.pos_history], "C": [float(v) for v in opt.cost_history],
            "M": [float(v) for v in opt.mean_pbest_history], "N": [float(np.mean(v)) for v in opt.mean_neighbor_history], "n": len(opt.cost_history)}


def eq(a, b):
    return np.shape(a) == np.shape(b) and np.array_equal(np.asarray(a, float), np.asarray(b, float), equal_nan=True)


def first(A, B):
    """Index of the first entry in which two sequences differ."""
    for t, (x, y) in enumerate(zip(A, B)):
        if not eq(x, y):
            return t
    return None


def compare(a, b, mon, msg, keys="XVPCMN", **detail):
    """Entries of both runs are equal as far as both go."""
    for k in keys:
        t = first(a[k], b[k])
        name = {"X": "evaluated positions", "V": "velocities", "P": "recorded positions", "C": "best costs", "M": "mean personal bests", "N": "neighbourhood costs"}[k]
        if not mon.check(t is None, msg + ": the %s differ" % name, iteration=t, a=None if t is None else a[k][t], b=None if t is None else b[k][t], **detail):
            return False
        mon.count("entries_compared", min(len(a[k]), len(b[k])))
    return True


def rowfn(name, shift=0.3):
    r = W.RowObj(name, {"shift": shift, "loop": 1})
    return lambda x, t: r.value(x)


# --------------------------------------------------------------- relations
def k_prefix(spec, mon):
    """A shorter or earlier stopped run is the beginning of a longer one."""
    c, s = spec["conf"], spec["seed"]
    raw = W.make_fn(spec["obj"], c["n"], s)
    fn = (lambda x, t: raw(x, t, {})) if "noisy" not in spec["obj"] else rowfn("weird")
    long = go(c, s, fn, spec["long"])
    short = go(c, s, fn, spec["short"])
    if compare(short, long, mon, "the first iterations depend on the number of iterations"):
        mon.check(short["n"] == spec["short"] and long["n"] == spec["long"], "another number of iterations than requested")
        mon.check(not long["cost"] > short["cost"], "a longer run ends with a worse result", short=short["cost"], long=long["cost"])
        mon.check(short["cost"] == long["C"][spec["short"] - 1] or np.isnan(short["cost"]), "the shorter run does not return the longer run's best cost at its end", short=short["cost"], long=long["C"][spec["short"] - 1])
    if spec["ftol"] is not None:
        stop = go(dict(c, ftol=spec["ftol"], ftol_iter=spec["ftol_iter"]), s, fn, spec["long"])
        compare(stop, long, mon, "a tolerance changes the iterations before it stops the run")
        mon.check(stop["n"] <= long["n"], "a tolerance makes the run longer")
        mon.count("stopped_prefixes", int(stop["n"] < long["n"]))
    mon.count("prefixes")


def increasing(name, g):
    """A strictly increasing map of the integers -4000..4000 (exact in floating point) that keeps inf and NaN."""
    table = np.cumsum(10.0 ** g.uniform(-3, 3, 8001)) + float(g.normal()) * 1e5

    def m(v):
        v = np.asarray(v, float)
        return {"double": lambda: v * 2, "cube": lambda: v ** 3, "exp": lambda: np.where(np.isfinite(v), np.exp(np.clip(v, -4000, 4000) / 8.0), v), "shift": lambda: v - 1e6,
                "negrec": lambda: np.where(np.isfinite(v), -1.0 / (v + 5000), v), "steps": lambda: v + np.where(v > 0, 1e9, 0.0), "halve": lambda: v / 1024,
            "ulps": lambda: 1.0 + (v + 4000) * 2.0 ** -52, "negulps": lambda: -1.0 + (v + 4000) * 2.0 ** -53 * 2, "denormal": lambda: v * 2.0 ** -1074, "astronomic": lambda: v * 2.0 ** 1000,
                "table": lambda: np.where(np.isfinite(v), table[np.clip(np.nan_to_num(v, posinf=0, neginf=0) + 4000, 0, 8000).astype(int)], v)}[name]()

    return m


def k_order(spec, mon):
    """Only the order of the costs matters."""
    c, s = spec["conf"], spec["seed"]
    g = np.random.default_rng(s)
    m = increasing(spec["map"], g)
    if spec["map"] == "exp":
        wide = 600  # exp(v / 8) stays finite
    else:
        wide = 4000
    C = g.integers(-wide, wide, (spec["T"], c["n"])).astype(float)

    def base(x, t):
        if spec["src"] == "script":
            return C[t]
        z = np.nan_to_num(np.array([np.sin(r * 3.1).sum() + np.cos(r).sum() for r in x]), nan=0.0) / (2 * x.shape[1])
        v = np.clip(np.floor(z * (wide if spec["src"] == "fine" else 6)), -wide, wide)
        if spec["src"] == "holes":
            v = np.where(np.floor(z * 31) % 4 == 0, np.inf, v)
            v = np.where(np.floor(z * 17) % 7 == 0, np.nan, v)
        return v

    a = go(c, s, base, spec["T"])
    b = go(c, s, lambda x, t: m(base(x, t)), spec["T"])
    if compare(a, b, mon, "positions depend on more than the order of the costs (%s)" % spec["map"], keys="XVP"):
        mon.check(eq(m(np.array(a["C"])), b["C"]), "the best costs are not the transformed ones", plain=a["C"], transformed=b["C"], map=spec["map"])
        mon.check(eq(a["pos"], b["pos"]) and eq(m(a["cost"]), b["cost"]), "the result is not the transformed one", plain=(a["cost"], a["pos"]), transformed=(b["cost"], b["pos"]))
    mon.count("transformed_runs")
    mon.seen("transformations", spec["map"] + "/" + spec["src"])


def scaled(v, f):
    if v is None:
        return None
    return [[x * f for x in q] if isinstance(q, list) else q * f for q in v]


def maker(c, seed, factor=1.0, mirror=False):
    """The optimizer of a configuration in which space is multiplied by `factor`."""
    b = copy.deepcopy(c)
    b["bounds_as"] = "array"
    init = W.make_init(c, seed)
    b["bounds"], b["clamp"] = scaled(c["bounds"], factor), scaled(c["clamp"], factor)
    if mirror:
        b["bounds"] = b["bounds"] and b["bounds"][::-1]
        b["clamp"] = b["clamp"] and b["clamp"][::-1]
    kw = dict(n_particles=c["n"], dimensions=c["d"], options=dict(c["options"]), bounds=W.make_bounds(b), velocity_clamp=W.make_clamp(b), bh_strategy=c["bh"] or "periodic", vh_strategy=c["vh"],
              oh_strategy=dict(c["oh"]) if c["oh"] is not None else None)
    if init is not None:
        kw["init_pos"] = init * factor

    def make():
        if c["opt"] == "gbest":
            return ps.single.GlobalBestPSO(**kw)
        if c["opt"] == "lbest":
            return ps.single.LocalBestPSO(static=c["static"], **kw)
        return ps.single.GeneralOptimizerPSO(topology=W.TOPO[c["topo"]](static=c["static"]), **kw)

    return make


def usable(r):
    """No overflow or underflow blurred the run."""
    v = np.abs(np.concatenate([np.ravel(x) for x in r["X"] + r["V"]]).astype(float))
    return bool(np.all(np.isfinite(v)) and v.max(initial=0) < 1e100 and (v[v > 0].min(initial=1.0) > 1e-120))


def k_scale(spec, mon):
    """Multiplying space by a power of two multiplies the run."""
    c, s, f = spec["conf"], spec["seed"], 2.0 ** spec["log2"]
    fn = rowfn(spec["fn"])
    a = go(c, s, fn, spec["T"], make=maker(c, s))
    if not usable(a):
        mon.count("out_of_range")
        return
    b = go(c, s, lambda x, t: fn(x / f, t), spec["T"], make=maker(c, s, f))
    for k, name in (("X", "evaluated positions"), ("V", "velocities"), ("P", "recorded positions")):
        t = first([x * f for x in a[k]], b[k])
        if not mon.check(t is None, "a space scaled by 2**%d does not give the scaled %s" % (spec["log2"], name), iteration=t, want=None if t is None else a[k][t] * f, got=None if t is None else b[k][t]):
            return
    mon.check(eq(a["C"], b["C"]) and eq(a["pos"] * f, b["pos"]), "the result of the scaled run is not the scaled result", plain=(a["cost"], a["pos"] * f), scaled=(b["cost"], b["pos"]))
    mon.count("scaled_runs")
    mon.count("entries_compared", 3 * len(a["X"]))


def k_mirror(spec, mon):
    """Reflecting space reflects the run: lower and upper limits are treated alike."""
    c, s = spec["conf"], spec["seed"]
    fn = rowfn(spec["fn"])
    V = np.random.default_rng([s, 3]).normal(size=(c["n"], c["d"]))
    if c["clamp"]:
        V = np.clip(V, *[np.array(v) for v in c["clamp"]])

    def start(sign):
        def prepare(opt):
            opt.swarm.velocity = sign * V

        return prepare

    a = go(c, s, fn, spec["T"], make=maker(c, s), prepare=start(1.0))
    b = go(c, s, lambda x, t: fn(-x, t), spec["T"], make=maker(c, s, -1.0, mirror=True), prepare=start(-1.0))
    if not usable(a):
        mon.count("out_of_range")
        return
    for k, name in (("X", "evaluated positions"), ("V", "velocities"), ("P", "recorded positions")):
        t = first([-x for x in a[k]], b[k])
        if not mon.check(t is None, "a reflected space does not give the reflected %s" % name, iteration=t, want=None if t is None else -a[k][t], got=None if t is None else b[k][t], bh=c["bh"]):
            return
    mon.check(eq(a["C"], b["C"]) and eq(-a["pos"], b["pos"]), "the result of the reflected run is not the reflected result", plain=(a["cost"], -a["pos"]), mirrored=(b["cost"], b["pos"]))
    mon.count("mirrored_runs")
    mon.count("entries_compared", 3 * len(a["X"]))


def k_equal(spec, mon):
    """Different names for the same search."""
    c, s, how = spec["conf"], spec["seed"], spec["how"]
    fn = rowfn(spec["fn"])
    st = c["static"]
    init = W.make_init(c, s)

    def make(cls, topology=None, **kw):
        def m():
            k = dict(n_particles=c["n"], dimensions=c["d"], options=dict(c["options"]), bounds=W.make_bounds(c), velocity_clamp=W.make_clamp(c), bh_strategy=c["bh"] or "periodic", vh_strategy=c["vh"],
                     oh_strategy=dict(c["oh"]) if c["oh"] is not None else None, center=c["center"], init_pos=None if init is None else init.copy(), **kw)
            if c["ftol"] is not None:
                k.update(ftol=c["ftol"], ftol_iter=c["ftol_iter"])
            if topology is not None:
                k["topology"] = topology()
            return cls(**k)

        return m

    G, L, Gen = ps.single.GlobalBestPSO, ps.single.LocalBestPSO, ps.single.GeneralOptimizerPSO
    one, two = {
        "gbest-star": (make(G), make(Gen, lambda: Star())),
        "lbest-ring": (make(L, static=st), make(Gen, lambda: Ring(static=st))),
        "vonneumann-ring": (make(Gen, lambda: VonNeumann(static=st)), make(Gen, lambda: Ring(static=True))),
        "ring-star": (make(Gen, lambda: Ring(static=st)), make(Gen, lambda: Star())),
        "pyramid-star": (make(Gen, lambda: Pyramid(static=st)), make(Gen, lambda: Star())),
        "lbest-gbest": (make(L, static=st), make(G)),
    }[how]
    a, b = go(c, s, fn, spec["T"], make=one), go(c, s, fn, spec["T"], make=two)
    if how != "gbest-star" and crowded(a):
        # several best particles or neighbours: which one is followed is free
        mon.count("ties_left_out")
        return
    if compare(a, b, mon, "%s differ" % how.replace("-", " and ")):
        mon.check(a["n"] == b["n"], "%s run for different numbers of iterations" % how.replace("-", " and "), a=a["n"], b=b["n"])
        mon.check(eq(a["cost"], b["cost"]) and eq(a["pos"], b["pos"]), "%s return different results" % how.replace("-", " and "), a=(a["cost"], a["pos"]), b=(b["cost"], b["pos"]))
    mon.count("equal_runs")
    mon.seen("equalities", how)


def crowded(r):
    """Equal costs in one iteration or equal distances (particles on a limit) may be resolved either way."""
    n = len(r["X"][0])
    best = np.full(n, np.inf)
    for x, y in zip(r["X"], r["Y"]):
        best = np.where(y < best, y, best)
        if len(np.unique(best)) < n:
            return True
        if not (np.abs(x) < 1e100).all():
            return True
        D = np.sort(np.linalg.norm(x[:, None].astype(float) - x[None], axis=2), axis=1)
        E = np.sort(np.abs(x[:, None].astype(float) - x[None]).sum(axis=2), axis=1)
        for q in (D, E):
            if n > 2 and (np.diff(q, axis=1) <= 1e-9 * (1e-300 + q[:, 1:])).any():
                return True
    return False
