"""C04: histories are faithful and immutable. Oracle: private copies taken while the run goes on."""
import numpy as np

from .. import monitors as M
from .. import oracle as O
from .. import sessions as S


def cases(tier, seed):
    for s in S.directed():
        yield s
    for s in S.extremes(tier):
        yield s
    rng = S.rng_for("C04", seed, tier)
    for i in range(1800 if tier == "quick" else 20000):
        yield S.gen_session(rng, max_iters=40, p_multi=0.6, p_ftol=0.1)


def run(spec, mon):
    box = {}

    def hooks(b):
        box["f"] = M.Frozen(b.opt)
        box["v0"] = np.array(b.opt.swarm.velocity, copy=True)
        box["x0"] = np.array(b.opt.swarm.position, copy=True)

        def hook(rec, c):
            if c.t == 0 and all(h == 0 for h in c.hlen) and b.calls_done:
                # after a reset: start from whatever the reset drew
                box["f"].after_reset()
                box["v0"] = np.array(b.opt.swarm.velocity, copy=True)
                box["x0"] = np.array(b.opt.swarm.position, copy=True)
            box["f"].update()
            if c.t == 0:
                box["live"] = []
            box["live"].append((np.array(b.opt.swarm.position, copy=True), np.array(b.opt.swarm.velocity, copy=True)))

        return hook

    def each(tr, b, m):
        if tr.error is not None:
            m.fail("objective called too often", error=repr(tr.error))
            return
        M.histories(tr, b.opt, m)
        M.history_values(tr, m)
        box["f"].update()
        # the swarm as it was while being evaluated is what gets recorded, bit for bit
        for t, (x, v) in enumerate(box["live"]):
            for what, live, entry in (("position", x, tr.hist["pos_history"][t]), ("velocity", v, tr.hist["velocity_history"][t])):
                m.check(np.asarray(entry).dtype == live.dtype and np.array_equal(entry, live, equal_nan=True), "recorded %s is not the swarm's %s of that iteration" % (what, what),
                        t=t, types=(np.asarray(entry).dtype, live.dtype))
            m.count("live_snapshots")
        # where did this call start?
        if tr.P:
            m.check(np.array_equal(tr.V[0], box["v0"]), "first velocity entry of a call is not the swarm's velocity before it")
            m.check(np.array_equal(tr.P[0], box["x0"]), "first position entry of a call is not the swarm's position before it")
        if spec.get("seed", 0) % 3 == 0:
            # the user moves or pushes the swarm between two calls
            sw, g = b.opt.swarm, np.random.default_rng([spec["seed"] % 2**32, tr.h1[0]])
            x = np.asarray(sw.position)[g.permutation(len(sw.position))].copy()
            v = (g.choice([-0.5, 0.25, 1.0], size=np.shape(sw.velocity)) * np.asarray(sw.velocity)).copy()
            inplace = spec["seed"] % 4 < 2 and isinstance(sw.position, np.ndarray) and sw.position.flags.writeable and sw.velocity.flags.writeable
            if inplace:
                sw.velocity[...] = v
            else:
                sw.velocity = v
            if spec["seed"] % 2 and inplace:
                sw.position[...] = x
            elif spec["seed"] % 2:
                sw.position = x
            m.count("swarms_moved_in_place", int(inplace))
            m.count("moved_swarms")
        box["x0"] = np.array(b.opt.swarm.position, copy=True)
        box["v0"] = np.array(b.opt.swarm.velocity, copy=True)
        if tr.h0[0]:
            m.count("continued_runs")
        c = tr.conf
        if c["opt"] != "binary" and not c["bounds"]:
            for t in range(len(tr.P) - 1):
                y = tr.P[t] + tr.V[t + 1]
                tol = 4 * O.EPS * (np.abs(tr.P[t]) + np.abs(tr.V[t + 1]))
                m.check(bool((np.abs(tr.P[t + 1] - y) <= tol).all()), "velocity entry is not the velocity that led to the position", t=t)
        box["f"].verify(m)

    S.run_session(spec, mon, each, hooks=hooks)
