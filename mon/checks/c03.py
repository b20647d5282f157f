"""C03: exactly one evaluation of the whole swarm per iteration. Oracle: the objective's call log."""
import base64
import json
import os
import tempfile

import numpy as np

from .. import monitors as M
from .. import sessions as S
from .. import work as W


def cases(tier, seed):
    for s in S.directed():
        yield s
    for s in S.extremes(tier):
        yield s
    rng = S.rng_for("C03", seed, tier)
    for i in range(3000 if tier == "quick" else 30000):
        yield S.gen_session(rng, p_ftol=0.2)
        if i % 40 == 0:
            c = W.gen_conf(rng, n=W.pick(rng, [1, 2, 3, 5, 8, 13]), p_ftol=0.2)
            yield {"kind": "parallel", "conf": c, "procs": int(rng.integers(1, 9)), "iters": int(rng.integers(1, 6)),
                   "row": W.pick(rng, ["sphere", "rastrigin", "step", "mixregion", "const"]), "delay": 0.01 if rng.random() < 0.5 else None,
                   "kwargs": W.pick(rng, [{}, {"a": 1.5}, {"a": 2.0, "b": -1.0, "foo": [1, "x"]}, {"swarm": 3, "a": 1.0}, {"pool": None, "func": 1},
                                          {"kwargs": 1, "args": [2], "chunk": 3, "n_chunks": 4}])}


def run(spec, mon):
    if spec["kind"] == "parallel":
        return parallel(spec, mon)
    c = spec["conf"]

    def each(tr, b, m):
        want = tr.call["iters"] if c["ftol"] is None else None
        M.protocol(tr, b.opt, m, want)
        if c["verbose"]:
            m.count("verbose_runs")
        if c["ftol"] is not None:
            m.count("runs_with_tolerance")

    S.run_session(spec, mon, each)


def read_log(path):
    out = []
    for line in open(path):
        r = json.loads(line)
        r["x"] = np.frombuffer(base64.b64decode(r["x"])).reshape(r["shape"])
        out.append(r)
    return out


def tile(P, blocks):
    """Can the blocks be laid side by side to give exactly P?"""
    if not blocks:
        return len(P) == 0
    for i, b in enumerate(blocks):
        if len(b) and len(b) <= len(P) and np.array_equal(P[: len(b)], b):
            if tile(P[len(b):], blocks[:i] + blocks[i + 1:]):
                return True
    return False


def parallel(spec, mon):
    c = spec["conf"]
    n, d = c["n"], c["d"]
    b = W.build(c, spec["seed"], record_topo=False)
    fd, log = tempfile.mkstemp(prefix="rows")
    os.close(fd)
    f = W.RowObj(spec["row"], {"shift": 0.1}, log=log, delay=spec["delay"])
    b.opt.optimize(f, spec["iters"], n_processes=spec["procs"], verbose=False, **spec["kwargs"])
    rows = read_log(log)
    os.unlink(log)
    P = [np.asarray(p, float) for p in b.opt.pos_history]
    T = len(P)
    if c["ftol"] is None:
        mon.check(T == spec["iters"], "wrong number of iterations", got=T, want=spec["iters"])
    want_kw = {k: repr(v) for k, v in sorted(spec["kwargs"].items())}
    blocks, t = [], 0
    for r in rows:
        mon.check(len(r["shape"]) == 2 and r["shape"][1] == d and r["shape"][0] >= 1, "objective got a block of shape %s" % r["shape"])
        mon.check(r["kw"] == want_kw, "objective got other keyword arguments", got=r["kw"], want=want_kw)
        if t < T:
            want = str(b.opt.pos_history[t].dtype)
            mon.check(r["dtype"] == want, "objective got another number type than the positions have", got=r["dtype"], want=want, t=t)
        blocks.append(r["x"])
        mon.count("parallel_blocks")
        if sum(len(x) for x in blocks) >= n:
            mon.check(t < T and sum(len(x) for x in blocks) == n and tile(P[t], blocks),
                      "the blocks evaluated in an iteration are not the rows of its position matrix, once each", t=t,
                      rows=[len(x) for x in blocks], procs=spec["procs"])
            blocks = []
            t += 1
    mon.check(t == T and not blocks, "number of evaluated matrices differs from the number of iterations", got=t, want=T, rest=len(blocks))
