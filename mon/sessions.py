"""Sessions: one optimizer and a sequence of optimize()/reset() calls, observed by monitors."""
import zlib

import numpy as np

from . import monitors as M
from . import work as W


def rng_for(prop, seed, tier):
    return np.random.default_rng([zlib.crc32(prop.encode()), int(seed), 1 if tier == "thorough" else 0])


def gen_session(rng, max_iters=None, p_multi=0.35, **fix):
    c = W.gen_conf(rng, **fix)
    calls = []
    m = 1 + int(rng.random() < p_multi) + int(rng.random() < p_multi / 2)
    for i in range(m):
        call = W.gen_call(rng, c["n"])
        if max_iters and call["iters"] > max_iters:
            call["iters"] = max_iters
        # the monitors see every particle in Python, keep big swarms short
        call["iters"] = max(1, min(call["iters"], max(3, 6000 // (c["n"] * max(1, c["d"] // 4)))))
        if c["topo"] in ("random", "pyramid"):
            call["iters"] = min(call["iters"], max(3, 400 // c["n"]))
        if i and rng.random() < 0.2:
            call["reset"] = True
        calls.append(call)
    return {"kind": "session", "conf": c, "calls": calls}


def base_conf(opt="gbest", n=5, d=2, **k):
    c = {"opt": opt, "topo": None, "n": n, "d": d, "static": False, "options": {"c1": 1.0, "c2": 1.0, "w": 0.7},
         "bounds": None, "bounds_as": "array", "bh": "periodic" if opt != "binary" else None, "vh": "unmodified", "oh": None,
         "clamp": None, "center": 1.0, "init": None, "ftol": None, "ftol_iter": 1, "verbose": False}
    c.update(k)
    o = dict(c["options"])
    if opt in ("lbest", "binary") or c["topo"] == "ring":
        o.setdefault("k", min(2, n))
        o.setdefault("p", 2)
    if c["topo"] == "random":
        o.setdefault("k", 1)
    if c["topo"] == "vonneumann":
        o.setdefault("r", 0)
        o.setdefault("p", 2)
    c["options"] = o
    return c


def row(name, iters, **k):
    d = {"iters": iters, "obj": {"row": name, "params": k.pop("params", {})}, "ret": "plain", "kwargs": {}}
    d.update(k)
    return d


def script(kind, iters, s=1, **k):
    d = {"iters": iters, "obj": {"script": kind, "T": iters, "s": s}, "ret": "plain", "kwargs": {}}
    d.update(k)
    return d


def costs(C, **k):
    d = {"iters": len(C), "obj": {"costs": C}, "ret": "plain", "kwargs": {}}
    d.update(k)
    return d


ALL_KINDS = [("gbest", None), ("lbest", None), ("general", "star"), ("general", "ring"), ("general", "vonneumann"),
             ("general", "pyramid"), ("general", "random"), ("binary", None)]


def directed():
    """Corner cases every session-based check replays."""
    out = []
    for opt, topo in ALL_KINDS:
        d = 2
        n = 6
        base = lambda **k: base_conf(opt, n=k.pop("n", n), d=d, topo=topo, **k)
        # the second call is worse / better / constant than the first
        out.append({"conf": base(), "calls": [row("sphere", 6), row("sphere", 6, kwargs={"a": 50.0}), row("const", 4), row("negsphere", 4)]})
        # ties everywhere, all costs equal, nothing finite, first iterations unusable
        out.append({"conf": base(), "calls": [script("zero", 7), script("ties", 12, 3)]})
        out.append({"conf": base(), "calls": [row("allinf", 4), row("sphere", 4)]})
        out.append({"conf": base(), "calls": [script("firstinf", 9, 5), script("firstnan", 9, 6)]})
        out.append({"conf": base(), "calls": [row("sphere", 3), script("nanmix", 9, 7), row("allnan", 3), row("sphere", 3)]})
        # best in the first / in the last evaluation only
        out.append({"conf": base(), "calls": [script("firstbest", 8, 1), script("lastbest", 8, 2), script("increasing", 8, 3)]})
        # coinciding particles
        if topo != "pyramid":
            out.append({"conf": base(init="same"), "calls": [script("random", 8, 4)]})
            out.append({"conf": base(init="dups"), "calls": [script("ties", 8, 4)]})
        # integer initial positions
        out.append({"conf": base(init="int"), "calls": [row("sphere", 6, params={"shift": 0.3})]})
        # one and two iterations, one particle
        out.append({"conf": base(), "calls": [row("sphere", 1), row("sphere", 1), row("sphere", 2)]})
        if topo not in ("pyramid", "random"):
            out.append({"conf": base_conf(opt, n=1, d=d, topo=topo), "calls": [row("sphere", 5), script("increasing", 5, 2)]})
            out.append({"conf": base_conf(opt, n=2, d=1, topo=topo), "calls": [row("sphere", 9), row("rastrigin", 9)]})
        # reset in between
        out.append({"conf": base(), "calls": [row("sphere", 4), row("sphere", 4, kwargs={"a": 9.0}, reset=True)]})
        # signed costs around zero, negative infinity
        out.append({"conf": base(), "calls": [script("neginf", 6, 8), row("negsphere", 6), script("denormal", 6, 9)]})
        # a long run
        out.append({"conf": base(n=5), "calls": [script("decreasing", 70, 2)]})
    # static neighbourhoods with k=1 over many iterations
    for opt, topo in [("lbest", None), ("general", "ring"), ("general", "vonneumann")]:
        o = {"c1": 1.0, "c2": 1.0, "w": 0.7, "p": 2}
        if topo == "vonneumann":
            o["r"] = 0
        else:
            o["k"] = 1
        out.append({"conf": base_conf(opt, n=6, d=2, topo=topo, static=True, options=o), "calls": [script("ties", 70, 3), row("sphere", 5)]})
        out.append({"conf": base_conf(opt, n=6, d=2, topo=topo, static=True, options=o, init="dups"), "calls": [script("random", 12, 3)]})
    # coefficients that make terms vanish
    for o in [{"c1": 0.0, "c2": 1.0, "w": 0.5}, {"c1": 1.0, "c2": 0.0, "w": 0.5}, {"c1": 0.0, "c2": 0.0, "w": 0.5},
              {"c1": 0.0, "c2": 0.0, "w": 1.0}, {"c1": 1.5, "c2": 1.5, "w": 0.0}, {"c1": 2.0, "c2": 2.0, "w": 2.0}]:
        for opt, topo in ALL_KINDS:
            out.append({"conf": base_conf(opt, n=6, d=2, topo=topo, options=dict(o), clamp=[-2.0, 2.0] if topo == "pyramid" else None),
                        "calls": [row("rastrigin", 8)]})
    # coefficients of all sizes
    for o in [{"c1": 0.0, "c2": 0.0, "w": 5e-4}, {"c1": 0.0, "c2": 0.0, "w": -1e-6}, {"c1": 0.0, "c2": 0.0, "w": 7.5}, {"c1": 1e-5, "c2": 0.0, "w": 0.0}, {"c1": 0.0, "c2": 1e-4, "w": 0.0},
              {"c1": 40.0, "c2": 0.0, "w": 1e-9}, {"c1": 0.0, "c2": 15.0, "w": -0.9}, {"c1": 1e-8, "c2": 1e-3, "w": 1e-4}, {"c1": 6.0, "c2": 9.0, "w": 1e-3}]:
        for opt, topo in ALL_KINDS:
            out.append({"conf": base_conf(opt, n=6, d=2, topo=topo, options=dict(o), clamp=[-2.0, 2.0] if topo == "pyramid" else None),
                        "calls": [row("rastrigin", 6), script("random", 4, 11)]})
    # every boundary strategy with every velocity strategy, clamped and not
    for bh in W.BH:
        for vh in ("unmodified", "invert", "zero"):
            for clamp in (None, [-0.6, 0.9]):
                out.append({"conf": base_conf("gbest", n=7, d=3, bounds=[[-1.0, 0.5, -3.0], [2.0, 0.75, -2.0]], bh=bh, vh=vh, clamp=clamp,
                                              options={"c1": 2.0, "c2": 2.0, "w": 1.1}),
                            "calls": [row("sphere", 15, params={"shift": 1.0}), row("linear", 5)]})
    for i, s in enumerate(out):
        s["kind"] = "directed"
        s["seed"] = 1000 + i
    return out


def run_session(spec, mon, each, hooks=None, after=None):
    """Runs all calls of the spec; `each(tr, b, mon)` judges every call."""
    c = spec["conf"]
    np.random.seed(spec["seed"] % 2**32)
    b = W.build(c, spec["seed"])
    b.static_x = None
    b.stale_pb = None
    b.calls_done = 0
    hook = hooks(b) if hooks else None
    for i, call in enumerate(spec["calls"]):
        if call.get("reset"):
            b.opt.reset()
            b.stale_pb = None
            b.was_reset = True
        tr = W.do_call(b, call, spec["seed"] + i, hook=hook)
        if b.static_x is None and tr.X:
            b.static_x = tr.X[0]
        mon.count("runs")
        mon.count("evaluated_rows", sum(len(x) for x in tr.X))
        mon.seen("configurations", "%s/%s/%s/%s/%s" % (c["opt"], c["topo"], c["bh"], c["vh"], "oh" if c["oh"] else ""))
        mon.seen("objectives", (call["obj"].get("row") or call["obj"].get("script") or "other") + "/" + call.get("ret", ""))
        each(tr, b, mon)
        b.calls_done += 1
    if after:
        after(b, mon)
    return b


def extremes(tier="quick", light=False, **conf):
    """Very long runs of tiny swarms, big swarms, many dimensions. `conf` is merged into every
    configuration (a callable value is called with the number of dimensions)."""
    out = []

    def add(opt, topo, n, d, calls, **k):
        more = {q: (v(d) if callable(v) else v) for q, v in conf.items()}
        if opt == "binary":
            more = {q: v for q, v in more.items() if q not in ("bounds", "bh", "vh", "oh")}
        k.update(more)
        if topo == "pyramid" and not k.get("clamp"):
            k["clamp"] = [-1.0, 1.0]
        c = base_conf(opt, n=n, d=d, topo=topo, **k)
        out.append({"kind": "extreme", "conf": c, "calls": calls})

    o = {"c1": 1.4, "c2": 1.4, "w": 0.72}
    long = 1150 if tier == "quick" else 5200
    for i, (opt, topo) in enumerate(ALL_KINDS):
        if topo == "pyramid":
            add(opt, topo, 5, 2, [script("random", 160, 3)])
            continue
        n, d = (3, 1) if topo == "random" else (2, 1)
        add(opt, topo, n, d, [script("decreasing" if i % 2 else "random", long, 3)] if i % 3 else [script("random", long - 700, 4), script("decreasing", 400, 5), script("ties", 300, 6)],
            options=dict(o))
    for i, (opt, topo) in enumerate(ALL_KINDS):
        if topo in ("pyramid", "random"):
            add(opt, topo, 60, 3, [row("rastrigin", 3)], options=dict(o))
            continue
        n = [257, 600, 1025, 300][i % 4] if not light else [150, 257][i % 2]
        add(opt, topo, n, 2, [row("rastrigin", 3), script("random", 3, 5)], options=dict(o))
        add(opt, topo, 4, [130, 257, 600][i % 3] if not light else 70, [row("sphere", 4), row("rastrigin", 2)], options=dict(o))
    if not light:  # matrices of more than 64 kB, in memory and in the histories
        for opt, topo, n, d in [("gbest", None, 1000, 20), ("lbest", None, 700, 24), ("binary", None, 400, 60), ("general", "star", 2500, 9), ("general", "ring", 300, 64)]:
            add(opt, topo, n, d, [row("rastrigin", 3), script("random", 2, 5)], options=dict(o))
    # many short calls on one optimizer
    for opt, topo in [("gbest", None), ("lbest", None), ("binary", None), ("general", "star")]:
        add(opt, topo, 3, 2, [script("random", 1 + q % 3, q) for q in range(40)], options=dict(o))
    for i, s in enumerate(out):
        s["seed"] = 5000 + i
    return out
