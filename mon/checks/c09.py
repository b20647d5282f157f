"""C09: the random factors. Monitor: factors recovered from the velocity equation (directly and
from recorded runs of every optimizer), generator outputs and random schedules; verdicts by
uniformity and independence tests at negligible error probability."""
import numpy as np
from scipy import stats as st

import pyswarms as ps
from pyswarms.backend.generators import create_swarm, generate_swarm, generate_velocity
from pyswarms.backend import operators as op
from pyswarms.backend.handlers import OptionsHandler, VelocityHandler
from pyswarms.backend.swarms import Swarm
from pyswarms.backend.topology import Star

from .. import sessions as S
from .. import stats
from .. import work as W


def cases(tier, seed):
    reps = 3 if tier == "quick" else 25
    for r in range(reps):
        for shape in [(30, 40, 5), (200, 3, 2), (60, 1, 20), (300, 12, 1), (4, 600, 3)]:
            for term in ("cognitive", "social"):
                yield {"kind": "factor", "shape": shape, "term": term, "rep": r}
            yield {"kind": "both", "shape": shape, "rep": r}
        for opt, topo in S.ALL_KINDS:
            for term in ("cognitive", "social"):
                for n in (3, 5, 12):
                    yield {"kind": "run", "opt": opt, "topo": topo, "term": term, "n": n, "rep": r}
        for opt, topo in S.ALL_KINDS:
            yield {"kind": "mean", "opt": opt, "topo": topo, "rep": r}
            yield {"kind": "initial", "opt": opt, "topo": topo, "rep": r}
        for b in (None, [[-3.0, 0.0, 1e6], [-1.0, 1e-3, 1e6 + 5]], [[0.0], [1.0]]):
            yield {"kind": "generate", "bounds": b, "rep": r}
        for c in (None, [-2.0, 0.5], [[-1.0, 0.0, 3.0], [1.0, 0.1, 7.0]]):
            yield {"kind": "velocity", "clamp": c, "rep": r}
        for e in (None, {"w": 0.2, "c1": 3.0}):
            yield {"kind": "options", "end": e, "rep": r}
        for n, d in [(1, 40), (2, 50), (3, 120), (400, 1), (1500, 2), (60, 7), (1, 1), (2, 2), (6, 6), (12, 12), (20, 20), (10, 3), (5, 10), (100, 10)]:
            yield {"kind": "shapes", "n": n, "d": d, "rep": r}
        for opt, topo in S.ALL_KINDS[:-1]:
            yield {"kind": "schedule", "opt": opt, "topo": topo, "rep": r}


def run(spec, mon):
    return globals()["k_" + spec["kind"]](spec, mon)


def one_velocity(n, d, o, a, g):
    x = np.zeros((n, d))
    sw = Swarm(position=x, velocity=np.zeros((n, d)), options=o)
    sw.pbest_pos = x + a
    sw.best_pos = np.full(d, g) if np.ndim(g) == 0 else g
    return op.compute_velocity(sw, None, VelocityHandler(strategy="unmodified"))


def k_factor(spec, mon):
    T, n, d = spec["shape"]
    co, dist = coefficient(spec["seed"]), float(10.0 ** np.random.default_rng(spec["seed"]).uniform(-6, 6)) * (-1) ** spec["seed"]
    o = {"c1": co if spec["term"] == "cognitive" else 0.0, "c2": 0.0 if spec["term"] == "cognitive" else co, "w": 0.3}
    U = np.array([one_velocity(n, d, o, dist, dist) for _ in range(T)]) / (co * dist)
    U = np.where(np.abs(U - 1) < 1e-12, 1.0, U)
    mon.seen("sample", (spec["term"], T, n, d))
    stats.matrix_independent(U, mon, "%s factor" % spec["term"])


def coefficient(s):
    g = np.random.default_rng([int(s), 3])
    return float(W.pick(g, [1.0, 0.5, 1.5, 2.0, 2.05, 2.5, 4.0, 10.0, float(10.0 ** g.uniform(-4, 4))]))


def triangular(x, mon, what):
    """x claimed to be the sum of two independent uniforms, shifted to [0, 2]."""
    x = np.asarray(x).ravel()
    cdf = lambda v: np.where(v < 1, v * v / 2, 1 - (2 - v) ** 2 / 2)
    p = st.kstest(np.clip(x, 0, 2), cdf).pvalue
    mon.count("pair_samples", x.size)
    mon.check(p > 1e-10, what, p=p, mean=x.mean(), var=x.var(), size=x.size)


def k_both(spec, mon):
    T, n, d = spec["shape"]
    a, b = coefficient(spec["seed"]), coefficient(spec["seed"] + 1)
    o = {"c1": a, "c2": b, "w": 0.3}
    U = np.array([one_velocity(n, d, o, 1.0 / a, 1.0 / b) for _ in range(T)])
    triangular(U, mon, "cognitive and social factors are not independent (sum)")
    V = np.array([one_velocity(n, d, o, 1.0 / a, -1.0 / b) for _ in range(T)])
    triangular(V + 1, mon, "cognitive and social factors are not independent (difference)")


def k_run(spec, mon):
    """Recover the factors from the histories of a whole run in which one term is switched off
    and the attractors stay where the first evaluation put them."""
    n, d, T = spec["n"], 3, 260
    opt, topo = spec["opt"], spec["topo"]
    cog = spec["term"] == "cognitive"
    co = [0.9, 0.9, 2.0, 2.4, 0.01][spec["rep"] % 5 if spec["rep"] else (n + len(opt)) % 5]
    if opt == "binary":
        # a bit that has reached its attractor shows no factor any more, so with a strong pull the
        # visible pairs of consecutive factors would be a biased selection
        co = [0.3, 0.01][n % 2]
    o = {"c1": co if cog else 0.0, "c2": 0.0 if cog else co, "w": 0.3 if co > 1 else 0.7}
    if topo == "vonneumann":
        if n < 7:
            n = 7
        o.update(r=1, p=2)
        n = 7
    if topo == "random":
        o["k"] = max(1, n - 2)
    if opt in ("lbest", "binary") or topo == "ring":
        o.update(k=n, p=2)
    c = S.base_conf(opt, n=n, d=d, topo=topo, options=o, clamp=[-3.0, 3.0] if topo == "pyramid" else None)
    b = W.build(c, spec["seed"])
    call = S.script("firstbest", T, s=int(spec["seed"] % 1000))
    tr = W.do_call(b, call, spec["seed"])
    P = [np.asarray(p, float) for p in tr.P]
    C0 = tr.C[0]
    U = np.full((T - 1, n, d), np.nan)
    for t in range(T - 1):
        if cog:
            a = P[0] - P[t]
        elif tr.toplog:
            bp = np.asarray(tr.toplog[t]["best_pos"], float)
            a = bp - P[t]
        else:
            a = P[0][int(np.argmin(C0))] - P[t]
        num = tr.V[t + 1] - o["w"] * tr.V[t]
        with np.errstate(all="ignore"):
            u = num / (co * a)
        scale = np.abs(tr.V[t]) + np.abs(P[t]) + np.abs(a)
        ok = np.abs(a) > 1e-5 * scale
        if c["clamp"]:
            ok &= np.abs(tr.V[t + 1]) < 3.0
            if (np.abs(tr.V[t + 1]) >= 3.0).any():
                ok &= False  # clipping selects factors: skip such steps
        u = np.where(np.abs(u) < 1e-9, 0.0, np.where(np.abs(u - 1) < 1e-9, 1.0, u))
        U[t] = np.where(ok, u, np.nan)
    mon.count("run_factors", int((~np.isnan(U)).sum()))
    mon.seen("runs", (opt, topo, spec["term"], n))
    stats.matrix_independent(U, mon, "%s factor in a run (%s %s)" % (spec["term"], opt, topo or ""))


def k_mean(spec, mon):
    """Average velocity of many random moves: every term enters with its coefficient times 1/2."""
    opt, topo = spec["opt"], spec["topo"]
    rng = np.random.default_rng(spec["seed"])
    n, d, T = 10, 2, 400
    o = {"c1": 1.3, "c2": 0.6, "w": 0.5}
    if topo == "vonneumann":
        o.update(r=1, p=2)
    if topo == "random":
        o["k"] = 2
    if opt in ("lbest", "binary") or topo == "ring":
        o.update(k=n, p=2)
    c = S.base_conf(opt, n=n, d=d, topo=topo, options=o, clamp=[-100.0, 100.0] if topo == "pyramid" else None)
    b = W.build(c, spec["seed"])
    tr = W.do_call(b, S.script("firstbest", T, s=int(spec["seed"] % 1000)), spec["seed"])
    if topo == "pyramid" and any(np.abs(v).max() >= 100 for v in tr.V):
        return
    P = [np.asarray(p, float) for p in tr.P]
    num, var = 0.0, 0.0
    for t in range(T - 1):
        bp = np.asarray(tr.toplog[t]["best_pos"], float) if tr.toplog else P[0][int(np.argmin(tr.C[0]))]
        a, g = P[0] - P[t], bp - P[t]
        res = tr.V[t + 1] - 0.5 * tr.V[t] - 0.5 * (1.3 * a + 0.6 * g)
        s2 = (1.3 * a) ** 2 / 12 + (0.6 * g) ** 2 / 12
        # weights make the two terms distinguishable
        for wgt in (a, ):
            num += (res * np.sign(wgt)).sum()
            var += s2.sum()
    mon.count("mean_moves", (T - 1) * n * d)
    z = abs(num) / np.sqrt(var) if var else 0
    mon.check(z < 7, "average move differs from w*v + (c1*a + c2*g)/2", z=z, opt=opt, topo=topo)


def k_initial(spec, mon):
    opt, topo = spec["opt"], spec["topo"]
    n, d, T = 12, 3, 60
    bounds = None if opt == "binary" else [[-4.0, 1.0, 0.0], [-1.0, 1.5, 1e4]]
    c = S.base_conf(opt, n=n, d=d, topo=topo, bounds=bounds, clamp=[-0.25, 1.5])
    X, V = [], []
    b = W.build(c, spec["seed"])
    for t in range(T):
        if t % 3 == 0:
            b = W.build(c, spec["seed"])
        else:
            b.opt.reset()
        X.append(np.array(b.opt.swarm.position, dtype=float))
        V.append((np.array(b.opt.swarm.velocity) + 0.25) / 1.75)
    if bounds:
        lb, ub = np.array(bounds)
        stats.matrix_independent((np.array(X) - lb) / (ub - lb), mon, "initial positions")
        stats.uncorrelated((np.array(X) - lb) / (ub - lb), np.array(V), mon, "initial positions and velocities")
    stats.matrix_independent(np.array(V), mon, "initial velocities")


def k_generate(spec, mon):
    b = spec["bounds"]
    d = len(b[0]) if b else 3
    lb, ub = (np.array(v) for v in (b or [[0.0] * d, [1.0] * d]))
    U = []
    for t in range(40):
        bb = (lb, ub) if b else None
        if t % 2:
            U.append((generate_swarm(20, d, bounds=bb) - lb) / (ub - lb))
        else:
            U.append((create_swarm(20, d, bounds=bb, options={}).position - lb) / (ub - lb))
    stats.matrix_independent(np.clip(np.array(U), 0, 1), mon, "generated positions")


def k_shapes(spec, mon):
    """Generated positions and velocities of swarms of all shapes, with and without limits."""
    rng = np.random.default_rng(spec["seed"])
    n, d = spec["n"], spec["d"]
    T = max(4, 3000 // (n * d))
    lb = rng.uniform(-5, 5, d)
    ub = lb + 10.0 ** rng.uniform(-2, 3, d)
    for bounds in (None, (lb, ub)):
        for how in ("generate", "create"):
            X, V = [], []
            for t in range(T):
                if how == "generate":
                    x, v = generate_swarm(n, d, bounds=bounds), generate_velocity(n, d, clamp=bounds)
                else:
                    s = create_swarm(n, d, bounds=bounds, clamp=bounds, options={})
                    x, v = s.position, s.velocity
                if not mon.check(x.shape == (n, d) and v.shape == (n, d), "generated arrays have other shapes"):
                    return
                if bounds:
                    x, v = (x - lb) / (ub - lb), (v - lb) / (ub - lb)
                X.append(x)
                V.append(v)
            stats.matrix_independent(np.clip(X, 0, 1), mon, "generated positions", n=n, d=d)
            stats.matrix_independent(np.clip(V, 0, 1), mon, "generated velocities", n=n, d=d)
            stats.uncorrelated(X, V, mon, "generated positions and velocities")
    mon.seen("generated_shapes", (n, d))


def k_velocity(spec, mon):
    c = spec["clamp"]
    lo, hi = (np.asarray(v, float) for v in (c or [0.0, 1.0]))
    U = []
    for t in range(40):
        cc = (lo, hi) if c else None
        v = generate_velocity(20, 3, clamp=cc) if t % 2 else create_swarm(20, 3, clamp=cc, options={}, discrete=bool(t % 4)).velocity
        U.append((v - lo) / (hi - lo))
    stats.matrix_independent(np.clip(np.array(U), 0, 1), mon, "generated velocities")


def k_options(spec, mon):
    start = {"w": 0.9, "c1": 0.5, "c2": 1.7, "k": 3}
    oh = OptionsHandler(strategy={"w": "random", "c1": "random", "c2": "random"})
    kw = {"end_opts": spec["end"]} if spec["end"] else {}
    rows = []
    for t in range(1500):
        r = oh(dict(start), iternow=t, itermax=1500, **kw)
        e = {k: (spec["end"] or {}).get(k, start[k] + 1) for k in ("w", "c1", "c2")}
        rows.append([(r[k] - start[k]) / (e[k] - start[k]) for k in ("w", "c1", "c2")])
    U = np.array(rows)[:, None, :]
    stats.matrix_independent(np.clip(U, 0, 1), mon, "random options strategy")


def k_schedule(spec, mon):
    opt, topo = spec["opt"], spec["topo"]
    c = S.base_conf(opt, n=6, d=2, topo=topo, bounds=[[-1.0, -1.0], [1.0, 1.0]], bh="nearest", oh={"w": "random", "c1": "random", "c2": "random"})
    b = W.build(c, spec["seed"], record_topo=False)
    tr = W.do_call(b, S.row("rastrigin", 500), spec["seed"])
    rows = []
    for k in tr.rec.calls[1:]:
        rows.append([k.opts[q] - c["options"][q] for q in ("w", "c1", "c2")])
    stats.matrix_independent(np.clip(np.array(rows)[:, None, :], 0, 1), mon, "random options strategy in a run")
