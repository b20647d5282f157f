"""C15: reset. Oracle: a newly constructed and reset twin under the same random state."""
import copy

import numpy as np

from .. import sessions as S
from .. import work as W
from .c13 import same_state, state

PAST = ["normal", "converged", "failed", "stopped", "parallel", "allinf", "two", "resets", "verbose"]


def cases(tier, seed):
    rng = S.rng_for("C15", seed, tier)
    i = 0
    for opt, topo in S.ALL_KINDS:
        for past in PAST:
            i += 1
            c = S.base_conf(opt, n=6, d=2, topo=topo, ftol=0.1 if past == "stopped" else None, ftol_iter=2 if past == "stopped" else 1,
                            init=["float", None, "int"][i % 3])
            yield {"kind": "twin", "seed": i, "conf": c, "past": past}
        for bh in W.BH:
            if opt == "binary":
                continue
            i += 1
            c = S.base_conf(opt, n=6, d=2, topo=topo, bounds=[[-1.0, 2.0], [1.0, 2.5]], bh=bh, vh=["invert", "zero", "unmodified"][i % 3],
                            oh={"w": "lin_variation", "c1": "random", "c2": "exp_decay"}, clamp=[-0.5, 0.6] if i % 2 else None)
            yield {"kind": "twin", "seed": i, "conf": c, "past": PAST[i % len(PAST)]}
    for j, s in enumerate(S.extremes(tier, light=True, init="float") + S.extremes(tier, light=True, bounds=lambda d: [[-1.0] * d, [1.5] * d], bh="random", clamp=[-0.4, 0.7])):
        c = s["conf"]
        yield {"kind": "twin", "seed": 700 + j, "conf": c, "past": ["normal", "two", "failed", "resets", "verbose"][j % 5], "long": max(1, sum(q["iters"] for q in s["calls"]) // 8)}
    for j in range(1000 if tier == "quick" else 12000):
        c = W.gen_conf(rng, p_oh=0.4, p_ftol=0.25)
        c["n"] = min(c["n"], 35 if j % 10 else 60 if c["topo"] in ("random", "pyramid") else 140)
        for q in ("k",):
            if q in c["options"] and c["opt"] != "gbest":
                c["options"][q] = min(c["options"][q], max(1, c["n"] - 2) if c["topo"] == "random" else c["n"])
        if c["topo"] == "vonneumann":
            while W.delannoy(c["d"], c["options"]["r"]) > c["n"]:
                c["options"]["r"] -= 1
        past = W.pick(rng, PAST) if rng.random() < 0.9 else "normal"
        if past == "parallel" and rng.random() < 0.8:
            past = "two"
        yield {"kind": "twin", "conf": c, "past": past}


def use(b, spec, mon):
    """Some history before the reset."""
    opt, past, m = b.opt, spec["past"], spec.get("long", 1)
    f = W.RowObj("rastrigin", {"shift": 0.3})
    if past in ("normal", "verbose", "resets"):
        opt.optimize(f, 7 * m, verbose=past == "verbose")
        if past == "resets":
            opt.reset()
            opt.optimize(f, 3 * m, verbose=False)
            for _ in range(min(m, 20)):
                opt.reset()
                opt.optimize(f, 1, verbose=False)
    elif past == "converged":
        opt.optimize(W.RowObj("const"), 25, verbose=False)
    elif past == "failed":
        k = [0]

        def g(x):
            k[0] += 1
            if k[0] == 4 * m:
                raise W.Boom("x")
            return f(x)

        try:
            opt.optimize(g, 9 * m, verbose=False)
            if len(opt.cost_history) >= 4 * m:
                mon.fail("objective error swallowed")
        except W.Boom:
            pass
    elif past == "stopped":
        opt.optimize(W.RowObj("const"), 30, verbose=False)
    elif past == "parallel":
        opt.optimize(f, 3, n_processes=2, verbose=False)
    elif past == "allinf":
        opt.optimize(W.RowObj("allinf"), 4, verbose=False)
    elif past == "two":
        opt.optimize(f, 5 * m, verbose=False)
        opt.optimize(W.RowObj("negsphere"), 6 * m, verbose=False)


def fresh_like(opt, mon, c, b):
    sw = opt.swarm
    for h in W.HIST:
        mon.check(len(getattr(opt, h)) == 0, "%s is not empty after reset" % h, got=len(getattr(opt, h)))
    mon.check(float(sw.best_cost) == np.inf, "best cost survives reset", got=sw.best_cost)
    pc = np.asarray(sw.pbest_cost, float)
    mon.check(bool(np.all(np.isinf(pc))), "personal best costs survive reset", got=pc)
    mon.check(dict(sw.options) == c["options"] and b.options == c["options"], "options are not the user's after reset", got=sw.options, want=c["options"])
    mon.check(np.shape(sw.position) == (c["n"], c["d"]) and np.shape(sw.velocity) == (c["n"], c["d"]), "wrong shapes after reset")
    if b.init is not None:
        mon.check(np.array_equal(np.asarray(sw.position, float), np.asarray(b.keep[3], float)), "initial positions are not restored by reset")


def run(spec, mon):
    c, s = spec["conf"], spec["seed"] % 2**32
    if c["opt"] == "gbest" or c["topo"] in ("star",) or not c["static"]:
        pass
    elif c["opt"] != "binary" or c["topo"]:
        # the documented exception: static neighbourhoods stay with the topology
        c = dict(c, static=False)
        if c["topo"] == "vonneumann":
            c["topo"], c["options"] = "ring", dict(c["options"], k=1, p=2)
    if c["topo"] == "vonneumann":
        # always static
        c = dict(c, topo="ring", options=dict(c["options"], k=min(2, c["n"]), p=2))
    np.random.seed((s + 1) % 2**32)
    used = W.build(c, s, record_topo=False)
    first = np.array(used.opt.swarm.position)
    use(used, spec, mon)
    last = np.array(used.opt.swarm.position)
    np.random.seed((s + 2) % 2**32)
    used.opt.reset()
    fresh_like(used.opt, mon, c, used)
    if used.init is None and c["opt"] != "binary":
        mon.check(not np.array_equal(used.opt.swarm.position, first) and not np.array_equal(used.opt.swarm.position, last), "positions are not newly drawn by reset")
    fresh = W.build(c, s, record_topo=False)
    np.random.seed((s + 2) % 2**32)
    fresh.opt.reset()
    msg = same_state(state(fresh.opt), state(used.opt))
    mon.check(msg is None, "after reset the swarm differs from that of a new optimizer", why=msg, past=spec["past"])
    mon.seen("pasts", (c["opt"], c["topo"], spec["past"]))
    f = W.RowObj("rastrigin", {"shift": 0.1})
    out = []
    for b in (fresh, used):
        np.random.seed((s + 3) % 2**32)
        r = b.opt.optimize(f, 8 * spec.get("long", 1), verbose=False)
        r2 = b.opt.optimize(f, 3, verbose=False)
        out.append([np.array(r[0]), np.array(r[1]), np.array(r2[0]), np.array(r2[1])])
    mon.check(all(np.array_equal(x, y, equal_nan=True) for x, y in zip(*out)), "a run after reset returns another result than a run of a new optimizer",
              fresh=out[0], used=out[1], past=spec["past"])
    msg = same_state(state(fresh.opt), state(used.opt))
    mon.check(msg is None, "a run after reset differs from a run of a new optimizer", why=msg, past=spec["past"])
    mon.count("twins")
