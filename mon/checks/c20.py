"""C20: hyperparameter searches. Monitor: a recording optimizer class handed to the searches, whose
scores are scripted; plus runs with the real optimizers."""
import copy
import itertools

import numpy as np

import pyswarms as ps
from pyswarms.utils.search import GridSearch, RandomSearch

from .. import core
from .. import sessions as S
from .. import stats
from .. import work as W


def cases(tier, seed):
    rng = S.rng_for("C20", seed, tier)
    q = 2 if tier == "quick" else 20
    for i in range(500 * q):
        o = {}
        for k in rng.permutation(["c1", "c2", "w", "k", "p", "extra", "r"][: int(W.pick(rng, [3, 5, 5, 6, 7]))]):
            m = int(W.pick(rng, [0, 1, 2, 3, 4]))
            if k in ("k", "p", "r"):
                v = [int(a) for a in rng.integers(1, 9, max(m, 1))]
            else:
                v = [round(float(a), 3) for a in rng.uniform(0, 5, max(m, 1))]
            if m > 1 and rng.random() < 0.2:
                v[1] = v[0]
            if k == "extra" and rng.random() < 0.6:  # values without an order
                v = [W.pick(rng, [None, "a", 2.5, "zz", 7]) if q else "b" for q in range(max(m, 1))]
            o[str(k)] = v if m else v[0]
        n = int(np.prod([len(v) if isinstance(v, list) else 1 for v in o.values()]))
        if n > 400:
            continue
        yield {"kind": "grid", "options": o, "scores": W.pick(rng, ["random", "ties", "decreasing", "increasing", "inf", "negative", "same"]),
               "bounds": bool(rng.random() < 0.6), "clamp": bool(rng.random() < 0.5), "maximum": W.pick(rng, [None, False, True])}
    for i in range(500 * q):
        lo = rng.uniform(0, 5, 3)
        w = rng.uniform(0.01, 4, 3)
        k0 = int(rng.integers(1, 9))
        yield {"kind": "random", "options": {"c1": [float(lo[0]), float(lo[0] + w[0])], "c2": [float(lo[1]), float(lo[1] + w[1])],
                                             "w": [float(lo[2]), float(lo[2] + w[2])], "k": [k0, k0 + int(rng.integers(1, 7))], "p": int(rng.integers(1, 3))},
               "m": int(W.pick(rng, [1, 2, 3, 10, 50, 300])), "scores": W.pick(rng, ["random", "ties", "decreasing", "increasing", "negative"]),
               "bounds": bool(rng.random() < 0.6), "clamp": bool(rng.random() < 0.5), "maximum": W.pick(rng, [None, False, True])}
    for i in range(40 * q):
        yield {"kind": "real", "which": ["grid", "random"][i % 2], "opt": ["lbest", "gbest", "binary"][i % 3], "maximum": bool(i % 4 > 1)}
    for i in range(3 * q):
        yield {"kind": "real", "which": ["grid", "random"][i % 2], "opt": ["lbest", "gbest", "binary"][i % 3], "maximum": bool(i % 2), "T": 120 + 90 * i}
    for i in range(4):
        yield {"kind": "ranges"}


def run(spec, mon):
    return globals()["k_" + spec["kind"]](spec, mon)


def scorer(kind, seed):
    g = np.random.default_rng(seed)
    k = itertools.count()

    def score(o):
        i = next(k)
        if kind == "random":
            return float(g.normal())
        if kind == "ties":
            return float(g.integers(0, 3))
        if kind == "decreasing":
            return 100.0 - i
        if kind == "increasing":
            return float(i) - 7
        if kind == "inf":
            return float(g.choice([np.inf, 1.0, 2.0, -np.inf, 5.0]))
        if kind == "negative":
            return -float(g.random()) - 1
        return 1.25
    return score


def recorder(score):
    """An optimizer class that records what it was made with and run with."""
    log = []

    class Fake:
        def __init__(self, n_particles, dimensions, options, bounds=None, velocity_clamp=None, **kw):
            self.rec = {"n": n_particles, "d": dimensions, "options": copy.deepcopy(options), "ref": options, "bounds": bounds, "clamp": velocity_clamp, "kw": kw, "runs": []}
            log.append(self.rec)

        def optimize(self, objective_func, iters, n_processes=None, verbose=True, **kwargs):
            s = score(self.rec["options"])
            self.rec["runs"].append((objective_func, iters, kwargs, s))
            return (s, np.zeros(self.rec["d"]))

    return Fake, log


def args(spec):
    d = 1 + spec["seed"] % 4
    kw = {"n_particles": 2 + spec["seed"] % 30, "dimensions": d, "objective_func": W.RowObj("sphere"), "iters": 1 + [spec["seed"] % 50, spec["seed"] % 5000][spec["seed"] // 7 % 2]}
    if spec["seed"] % 11 == 0:
        kw["n_particles"] = 1 + spec["seed"] % 700
    kw["options"] = copy.deepcopy(spec["options"])
    if spec["bounds"]:
        kw["bounds"] = (np.full(d, -1.0), np.full(d, 2.0))
    if spec["clamp"]:
        kw["velocity_clamp"] = (-0.5, 0.25)
    return kw


def judge(s, log, kw, spec, mon, result, what):
    """One candidate, one fresh optimizer, one run; the best score and the options behind it."""
    maximum = bool(spec["maximum"])
    for r in log:
        mon.check(len(r["runs"]) == 1, what + ": a candidate is not scored by exactly one run", runs=len(r["runs"]))
        mon.check(r["n"] == kw["n_particles"] and r["d"] == kw["dimensions"], what + ": other swarm size or dimensions", got=(r["n"], r["d"]))
        mon.check((r["bounds"] is kw.get("bounds")) or (kw.get("bounds") is not None and r["bounds"] is not None and np.array_equal(r["bounds"], kw["bounds"])),
                  what + ": other bounds", got=r["bounds"], want=kw.get("bounds"))
        mon.check(tuple(r["clamp"]) == tuple(kw.get("velocity_clamp", (0, 1))), what + ": other velocity clamp", got=r["clamp"], want=kw.get("velocity_clamp"))
        for f, it, k, _ in r["runs"]:
            mon.check(f is kw["objective_func"] and it == kw["iters"], what + ": other objective or number of iterations", iters=it, want=kw["iters"])
            mon.check(k == {}, what + ": unexpected keyword arguments for the objective", got=k)
        mon.check(r["ref"] == r["options"], what + ": a candidate's options changed after use")
        mon.count("candidates")
    mon.check(len({id(r) for r in log}) == len(log), what + ": an optimizer is reused")
    scores = [r["runs"][0][3] for r in log]
    best = max(scores) if maximum else min(scores)
    mon.check(isinstance(result, tuple) and len(result) == 2, what + ": search() does not return a pair", got=result)
    bs, bo = result
    mon.check(float(bs) == best, what + ": search() does not return the %s score" % ("largest" if maximum else "smallest"), got=bs, want=best)
    mon.check(any(r["options"] == bo and r["runs"][0][3] == best for r in log), what + ": the returned options did not produce the returned score", options=bo, score=bs,
              producers=[r["options"] for r in log if r["runs"][0][3] == best][:3])
    mon.check(s.best_score == bs and s.best_options == bo, what + ": attributes differ from the result", got=(s.best_score, s.best_options))
    mon.check(kw["options"] == spec["options"] and list(kw["options"]) == list(spec["options"]), what + ": the user's options were modified", got=kw["options"], want=spec["options"])


def call(s, m):
    return s.search() if m is None else s.search(maximum=m)


def k_grid(spec, mon):
    kw = args(spec)
    Fake, log = recorder(scorer(spec["scores"], spec["seed"]))
    s = GridSearch(Fake, **kw)
    mon.check(not log, "grid search runs before search() is called")
    for rep in range(1 + spec["seed"] % 2):
        log.clear()
        r = call(s, spec["maximum"])
        keys = sorted(spec["options"])
        items = [spec["options"][k] if isinstance(spec["options"][k], list) else [spec["options"][k]] for k in keys]
        want = sorted(itertools.product(*items), key=repr)
        got = []
        for q in log:
            mon.check(sorted(q["options"]) == keys, "grid search: a candidate has other options", got=sorted(q["options"]), want=keys)
            got.append(tuple(q["options"].get(k) for k in keys))
        if len(set(want)) < len(want) and sorted(got, key=repr) == sorted(set(want), key=repr):
            want = sorted(got, key=repr)  # a repeated value makes the same combination
        mon.check(sorted(got, key=repr) == want, "grid search does not try exactly the Cartesian product", tried=len(got), want=len(want), missing=[w for w in want if w not in got][:3])
        judge(s, log, kw, spec, mon, r, "grid search")
    mon.seen("grids", len(want))


def k_random(spec, mon):
    kw = args(spec)
    Fake, log = recorder(scorer(spec["scores"], spec["seed"]))
    s = RandomSearch(Fake, n_selection_iters=spec["m"], **kw)
    mon.check(not log, "random search runs before search() is called")
    o = spec["options"]
    for rep in range(1 + spec["seed"] % 2):
        log.clear()
        r = call(s, spec["maximum"])
        mon.check(len(log) == spec["m"], "random search does not try exactly n_selection_iters candidates", got=len(log), want=spec["m"])
        for q in log:
            c = q["options"]
            mon.check(sorted(c) == sorted(o), "random search: a candidate has other options", got=sorted(c))
            for k in ("c1", "c2", "w"):
                mon.check(o[k][0] <= c[k] <= o[k][1], "random search: %s outside of its range" % k, got=c[k], want=o[k])
            mon.check(float(c["k"]).is_integer() and np.issubdtype(type(c["k"]), np.integer) and o["k"][0] <= c["k"] < o["k"][1], "random search: k outside of its half-open integer range", got=c["k"], want=o["k"])
            mon.check(c["p"] == o["p"], "random search: p is not constant", got=c["p"])
        if spec["m"] > 5:
            for k in ("c1", "c2", "w"):
                mon.check(len({q["options"][k] for q in log}) > 1, "random search: %s never varies" % k)
            for a, b in (("c1", "c2"), ("c1", "w"), ("c2", "w")):
                u = [(q["options"][a] - o[a][0]) / (o[a][1] - o[a][0]) for q in log]
                v = [(q["options"][b] - o[b][0]) / (o[b][1] - o[b][0]) for q in log]
                mon.check(not np.allclose(u, v, atol=1e-9), "random search: %s and %s are drawn together" % (a, b))
        judge(s, log, kw, spec, mon, r, "random search")


def k_ranges(spec, mon):
    """The whole ranges are reached, evenly."""
    o = {"c1": [1.0, 3.0], "c2": [0.0, 0.5], "w": [-1.0, 1.0], "k": [2, 6], "p": 2}
    Fake, log = recorder(scorer("random", 1))
    RandomSearch(Fake, n_particles=3, dimensions=2, options=o, objective_func=len, iters=1, n_selection_iters=4000).search()
    for k in ("c1", "c2", "w"):
        stats.uniform([(q["options"][k] - o[k][0]) / (o[k][1] - o[k][0]) for q in log], mon, "random search range of " + k)
    cnt = np.bincount([q["options"]["k"] for q in log], minlength=7)
    mon.check(bool((np.abs(cnt[2:6] - 1000) < 220).all()) and cnt.sum() == cnt[2:6].sum(), "random search: k is not uniform on its range", counts=cnt)


def k_real(spec, mon):
    """The real optimizers: scores are reproducible costs of the real runs."""
    base = {"lbest": ps.single.LocalBestPSO, "gbest": ps.single.GlobalBestPSO, "binary": ps.discrete.BinaryPSO}[spec["opt"]]
    log = []
    f = W.RowObj("sphere", {"shift": 0.4})

    class Spy(base):
        def __init__(self, n_particles, dimensions, options, bounds=None, **kw):
            if base is ps.discrete.BinaryPSO:
                super().__init__(n_particles, dimensions, options, **kw)
            else:
                super().__init__(n_particles, dimensions, options, bounds, **kw)
            self.given = copy.deepcopy(options)
            log.append(self)

        def optimize(self, *a, **k):
            r = super().optimize(*a, **k)
            self.out = r
            return r

    d = 2
    T = spec.get("T", 4)
    kw = dict(n_particles=6, dimensions=d, objective_func=f, iters=T)
    if base is not ps.discrete.BinaryPSO:
        kw["bounds"] = (np.full(d, -1.0), np.full(d, 1.0))
    if spec["which"] == "grid":
        o = {"c1": [0.5, 1.0], "c2": [0.3, 0.7, 1.1], "w": 0.6, "k": [2, 3], "p": 2}
        s = GridSearch(Spy, options=o, **kw)
        want = 12
    else:
        o = {"c1": [0.5, 1.0], "c2": [0.3, 0.7], "w": [0.2, 0.9], "k": [2, 4], "p": 2}
        s = RandomSearch(Spy, options=o, n_selection_iters=7, **kw)
        want = 7
    keep = copy.deepcopy(o)
    bs, bo = s.search(maximum=spec["maximum"])
    mon.check(len(log) == want, "wrong number of optimizers", got=len(log), want=want)
    costs = [float(q.out[0]) for q in log]
    best = max(costs) if spec["maximum"] else min(costs)
    mon.check(float(bs) == best, "search() does not return the best real cost", got=bs, want=best)
    mon.check(any(q.given == bo and float(q.out[0]) == best for q in log), "the options do not belong to the best run", options=bo)
    for q in log:
        mon.check(len(q.cost_history) == T and q.swarm.n_particles == 6 and q.swarm.dimensions == d, "a candidate ran with other settings")
        mon.check(np.array_equal(q.velocity_clamp, (0, 1)), "a candidate ran without the default clamp", got=q.velocity_clamp)
    mon.check(o == keep, "the user's options were modified")
    mon.count("real_searches")
