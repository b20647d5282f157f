"""C12: coefficient schedules, called directly and as seen by the swarm in every iteration."""
import copy
import math

import numpy as np

from pyswarms.backend.handlers import OptionsHandler

from .. import oracle as O
from .. import sessions as S
from .. import stats
from .. import work as W


def cases(tier, seed):
    rng = S.rng_for("C12", seed, tier)
    for oh in W.OH:
        for opt, topo in S.ALL_KINDS[:-1]:
            c = S.base_conf(opt, n=6, d=2, topo=topo, oh={"w": oh, "c1": oh, "c2": oh}, bounds=[[-1.0, -1.0], [1.0, 1.0]], bh="nearest")
            c["options"].update(c1=0.5, c2=0.3, w=0.9)
            yield {"kind": "run", "seed": 7, "conf": c, "calls": [S.row("sphere", 12), S.row("sphere", 5), S.row("sphere", 1), S.row("sphere", 9, reset=True)]}
    for i, oh in enumerate(W.OH):
        for j, s in enumerate(S.extremes(tier, light=True, oh={"w": oh, "c2": oh}, bounds=lambda d: [[-1.0] * d, [1.5] * d], bh="nearest")):
            if s["conf"]["opt"] != "binary" and (tier != "quick" or (i + j) % 3 == 0):
                s["kind"] = "run"
                yield s
    for i in range(700 if tier == "quick" else 9000):
        s = S.gen_session(rng, opt=W.pick(rng, ["gbest", "lbest", "general"]), p_oh=1.0, p_ftol=0.2, p_multi=0.6)
        s["kind"] = "run"
        if s["conf"]["topo"] == "pyramid":
            s["conf"]["clamp"] = [-1.0, 1.0]
        yield s
    for i in range(6000 if tier == "quick" else 80000):
        n = int(W.pick(rng, [1, 2, 3, 10, 100, 1000]))
        yield {"kind": "direct", "start": {"w": num(rng, -1, 2), "c1": num(rng, 0, 3), "c2": num(rng, 0, 3), "k": 2, "p": 1},
               "oh": {k: W.pick(rng, W.OH) for k in ("w", "c1", "c2") if rng.random() < 0.8}, "n": n, "i": int(rng.integers(0, n + 1)),
               "end": None if rng.random() < 0.4 else {k: num(rng, -1, 3) for k in ("w", "c1", "c2") if rng.random() < 0.6},
               "par": W.pick(rng, [{}, {}, {"d1": 0.5}, {"d2": 3}, {"n": 2.0}, {"n": 0.7, "d1": 0.0, "d2": 1.5}, {"n": 0}, {"d2": 0.0}, {"n": 1}])}


    for j in range(12 if tier == "quick" else 150):
        yield {"kind": "random", "start": {"w": num(rng, -1, 2), "c1": W.pick(rng, [1, 0.5, float(rng.uniform(0, 3))]), "c2": num(rng, 0, 3), "k": 2},
               "end": None if j % 3 == 0 else {k: v for k, v in {"w": W.pick(rng, [2, 0.0, -0.5]), "c1": W.pick(rng, [3, 3.0, 0.1]), "c2": W.pick(rng, [4, 1e-3, 1e3])}.items() if rng.random() < 0.8},
               "draws": int(W.pick(rng, [200, 1000, 3000]))}


def num(rng, lo, hi):
    """Mostly anything, sometimes the special values."""
    if rng.random() < 0.25:
        return W.pick(rng, [0.0, 0, 1, 1.0, 2, 0.4])
    return float(rng.uniform(lo, hi))


def run(spec, mon):
    return globals()["k_" + spec["kind"]](spec, mon)


def agree(mon, got, want, what, **info):
    mon.check(set(got) == set(want), what + ": other keys", got=sorted(got), want=sorted(want))
    for k in want:
        lo, hi = want[k]
        g = got.get(k)
        tol = 1e-9 * (1e-6 + abs(lo) + abs(hi))
        mon.check(g is not None and lo - tol <= g <= hi + tol, what + ": wrong value of %s" % k, got=g, want=(lo, hi), **info)
        mon.count("coefficients")


def k_direct(spec, mon):
    oh = OptionsHandler(strategy=dict(spec["oh"]))
    start = dict(spec["start"])
    kw = {"iternow": spec["i"], "itermax": spec["n"]}
    if spec["end"] is not None:
        kw["end_opts"] = dict(spec["end"])
    kw.update(spec["par"])
    keep = copy.deepcopy(kw)
    got = oh(start, **kw)
    p = spec["par"]
    want = O.options_at(spec["start"], spec["oh"], spec["i"], spec["n"], spec["end"], d1=p.get("d1", 0.2), d2=p.get("d2", 7), nn=p.get("n", 1.2))
    agree(mon, got, want, "options handler", oh=spec["oh"], i=spec["i"], n=spec["n"], end=spec["end"], par=p)
    mon.check(start == spec["start"], "the start options were modified", got=start)
    mon.check(kw == keep, "the arguments were modified")
    for v in spec["oh"].values():
        mon.seen("strategies", v)
    for none in (None, {}):
        got = OptionsHandler(strategy=none)(start, **kw)
        mon.check(dict(got) == spec["start"] and start == spec["start"], "options handler without a strategy changes the options", strategy=none, got=got)


def k_random(spec, mon):
    """The random strategy draws any number between start and end, and a new one every time."""
    names = ("w", "c1", "c2")
    oh = OptionsHandler(strategy={q: "random" for q in names})
    start, m = spec["start"], spec["draws"]
    end = {q: (spec["end"] or {}).get(q, start[q] + 1) for q in names}
    kw = {} if spec["end"] is None else {"end_opts": dict(spec["end"])}
    rows = [oh(dict(start), iternow=i, itermax=m, **kw) for i in range(m)]
    for q in names:
        a, b = float(start[q]), float(end[q])
        if a == b:
            continue
        u = (np.array([float(r[q]) for r in rows]) - a) / (b - a)
        mon.check(bool(((u >= -1e-9) & (u <= 1 + 1e-9)).all()), "random schedule leaves the range from start to end", coefficient=q, start=a, end=b)
        stats.uniform(np.clip(u, 0, 1), mon, "random schedule of %s" % q)
        mon.check(len(set(u.tolist())) > 0.98 * m, "random schedule repeats its values", coefficient=q, different=len(set(u.tolist())), draws=m)
    mon.count("random_draws", m)


def k_run(spec, mon):
    c = spec["conf"]
    user = {}

    def each(tr, b, m):
        n = tr.call["iters"]
        m.check(b.options == c["options"], "the user's options were modified", got=b.options, want=c["options"])
        for t, k in enumerate(tr.rec.calls):
            if t:
                agree(m, k.opts, O.options_at(c["options"], c["oh"], t - 1, n), "coefficients used in a run", iteration=t, of=n, oh=c["oh"])
        T = len(tr.X)
        stopped = c["ftol"] is not None
        if T and not stopped:
            agree(m, tr.swarm["options"], O.options_at(c["options"], c["oh"], T - 1, n), "coefficients after a run", of=n, oh=c["oh"])
        m.count("scheduled_runs", int(bool(c["oh"])))

    S.run_session(spec, mon, each)
