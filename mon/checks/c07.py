"""C07: clamps and velocity strategies, directly and in recorded runs."""
import numpy as np

from pyswarms.backend import operators as op
from pyswarms.backend.handlers import VelocityHandler
from pyswarms.backend.swarms import Swarm

from .. import monitors as M
from .. import oracle as O
from .. import sessions as S
from .. import work as W


def cases(tier, seed):
    for s in S.directed():
        if s["conf"]["clamp"]:
            yield s
    rng = S.rng_for("C07", seed, tier)
    # every optimizer with every kind of clamp
    for opt, topo in S.ALL_KINDS:
        for cl in ([-0.1, 0.1], [0.05, 0.4], [-0.5, -0.02], [[-0.1, -2.0], [0.3, 0.0]], [-1e-8, 1e-8], [0.0, 1.0], [-50.0, 50.0]):
            for vh in ("unmodified", "invert", "zero"):
                if opt == "binary" and vh != "unmodified":
                    continue
                c = S.base_conf(opt, n=6, d=2, topo=topo, clamp=cl, vh=vh, bounds=[[-2.0, 1.0], [2.0, 4.0]] if vh != "unmodified" else None,
                                bh=None if opt == "binary" else "nearest", options={"c1": 2.5, "c2": 2.5, "w": 1.2})
                yield {"kind": "session", "conf": c, "calls": [S.row("sphere", 12), S.row("linear", 4, reset=True)]}
    for i, s in enumerate(S.extremes(tier, light=True, clamp=[-0.3, 0.2])):
        yield s
    for i, s in enumerate(S.extremes(tier, light=True, clamp=[-0.3, 0.2], bounds=lambda d: [[-1.0] * d, [1.5] * d], bh="nearest", vh="invert")):
        if s["conf"]["opt"] != "binary":
            yield s
    for i in range(900 if tier == "quick" else 12000):
        s = S.gen_session(rng, max_iters=40)
        c = s["conf"]
        c["clamp"] = W.gen_clamp(rng, c["d"]) if c["topo"] != "pyramid" else [-1.0, 1.0]
        yield s
    for i in range(3500 if tier == "quick" else 50000):
        d = int(rng.integers(1, 7))
        yield {"kind": "direct", "vh": W.pick(rng, ["unmodified", "invert", "zero", "adjust"]), "d": d, "n": int(W.pick(rng, [1, 2, 7, 30])),
               "clamp": W.gen_clamp(rng, d) if rng.random() < 0.75 else None, "clamp_as": W.pick(rng, ["raw", "array", "list"]),
               "bounds": W.gen_bounds(rng, d, "moderate"), "z": W.pick(rng, [None, None, 0.5, 1.0, 0.0, 0.25, 2.0]), "steps": int(rng.integers(1, 5)),
               "bounds_as": W.pick(rng, ["array", "list"]), "via": W.pick(rng, ["handler", "op", "inplace"])}


def run(spec, mon):
    if spec["kind"] == "direct":
        return direct(spec, mon)

    def each(tr, b, m):
        M.clamped(tr, m)
        sw = np.asarray(b.opt.swarm.velocity, float)
        if tr.conf["clamp"] is not None:
            lo, hi = (np.asarray(v, float) for v in tr.conf["clamp"])
            m.check(not O.outside(sw, lo, hi).any(), "current velocity outside of the clamp")

    S.run_session(spec, mon, each)


def direct(spec, mon):
    rng = np.random.default_rng(spec["seed"])
    n, d = spec["n"], spec["d"]
    lb, ub = (np.array(b) for b in spec["bounds"])
    bounds = W.make_bounds(spec)
    clamp = None
    lo = hi = None
    if spec["clamp"]:
        lo, hi = (np.asarray(v, float) for v in spec["clamp"])
        clamp = (lo.tolist(), hi.tolist()) if spec["clamp_as"] != "array" else (lo.copy(), hi.copy())
        if spec["clamp_as"] == "list":
            clamp = list(clamp)
    vh = VelocityHandler(strategy=spec["vh"])
    prev = None
    for t in range(spec["steps"]):
        s = ub - lb
        x = lb - 0.5 * s + rng.random((n, d)) * 2 * s
        if rng.random() < 0.3:
            x = np.clip(x, lb, ub)
        elif d > 1 and rng.random() < 0.4:
            # below in one dimension and above in another one at once
            x[:, 0], x[:, 1] = lb[0] - 1, ub[1] + 1
            x[rng.random(n) < 0.5] = (lb + ub) / 2
        v = rng.normal(size=(n, d)) * 10.0 ** rng.uniform(-3, 3)
        if lo is not None and rng.random() < 0.5:
            m = rng.random((n, d)) < 0.3
            v = np.where(m, np.where(rng.random((n, d)) < 0.5, lo, hi), v)
        if rng.random() < 0.3:  # all magnitudes, signed zeros, infinities
            m = rng.random((n, d)) < 0.4
            odd = np.sign(rng.normal(size=(n, d))) * 10.0 ** rng.uniform(-320, 300, (n, d))
            if spec["z"] != 0.0:
                odd = np.where(rng.random((n, d)) < 0.3, rng.choice([np.inf, -np.inf], (n, d)), odd)
            odd = np.where(rng.random((n, d)) < 0.1, rng.choice([0.0, -0.0], (n, d)), odd)
            v = np.where(m, odd, v)
        kw = {"position": x.copy(), "bounds": bounds}
        z = 0.5
        if spec["z"] is not None and spec["vh"] == "invert":
            z = kw["z"] = spec["z"]
        if spec["via"] == "op" and spec["z"] is None:
            # without attraction and with w = 1 the raw velocity is v itself
            sw = Swarm(position=x.copy(), velocity=v.copy(), options={"c1": 0.0, "c2": 0.0, "w": 1.0})
            sw.pbest_pos, sw.best_pos = x.copy(), x[0].copy()
            got = op.compute_velocity(sw, clamp, vh, bounds)
        elif spec["via"] == "inplace":
            # a loop that keeps one array of positions and one of velocities
            if t == 0:
                own_x, own_v = x.copy(), v.copy()
            own_x[...], own_v[...] = x, v
            got = own_v = vh(own_v, clamp, **dict(kw, position=own_x))
        else:
            got = vh(v.copy(), clamp, **kw)
        got = np.array(got, float)
        out = O.outside(x, lb, ub).any(axis=1, keepdims=True)
        if spec["vh"] == "unmodified":
            want = v
        elif spec["vh"] == "invert":
            want = np.where(out, -z * v, v)
        elif spec["vh"] == "zero":
            want = np.where(out, 0.0, v)
        else:
            want = v if prev is None else x - prev
        if lo is not None:
            want = np.where(want < lo, lo, np.where(want > hi, hi, want))
            if spec["vh"] == "zero":
                want = np.where(out, 0.0, want)  # zero also where the clamp does not contain it
        mon.check(got.shape == (n, d) and np.array_equal(got, want), "%s returned other velocities than documented" % spec["vh"],
                  got=got, want=want, v=v, x=x, clamp=spec["clamp"], z=z, step=t)
        if lo is not None:
            mon.check(not (O.outside(got, lo, hi) & ~(out & (spec["vh"] == "zero"))).any(), "%s returned a velocity outside of the clamp" % spec["vh"])
            mon.count("clamped_coordinates", int(((want == lo) | (want == hi)).sum()))
        mon.count("direct_velocities", n * d)
        mon.count("particles_out", int(out.sum()))
        prev = x
