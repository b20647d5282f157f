"""C01: the returned pair is the best evaluation. Oracle: the recorded evaluations."""
import base64
import json
import os
import tempfile

import numpy as np

from .. import monitors as M
from .. import sessions as S
from .. import work as W


def cases(tier, seed):
    for s in S.directed():
        yield s
    for s in S.extremes(tier):
        yield s
    rng = S.rng_for("C01", seed, tier)
    n = 1500 if tier == "quick" else 16000
    for i in range(n):
        s = S.gen_session(rng, p_ftol=0.15)
        yield s
        if i % 50 == 0:
            c = W.gen_conf(rng, n=W.pick(rng, [1, 2, 3, 7, 12]))
            c["init"] = None
            yield {"kind": "parallel", "conf": c, "procs": int(rng.integers(1, 5)),
                   "iters": int(rng.integers(1, 6)), "row": W.pick(rng, ["sphere", "rastrigin", "step", "mixregion", "const"]), "calls": 2}


def run(spec, mon):
    if spec["kind"] == "parallel":
        return parallel(spec, mon)
    kept = []

    def each(tr, b, m):
        M.soundness(tr, b.opt, m)
        if tr.result is not None:
            kept.append((tr.result, np.array(tr.result[0], copy=True), np.array(tr.result[1], copy=True)))
            # the returned objects are copies: using them must not influence anything
            held = [v for v in vars(b.opt.swarm).values() if isinstance(v, np.ndarray)] + [h for h in b.opt.pos_history[-2:] if isinstance(h, np.ndarray)]
            for k, r in zip(("cost", "position"), tr.result):
                m.check(not isinstance(r, np.ndarray) or not any(np.shares_memory(r, h) for h in held), "the returned %s is the optimizer's own array: using it would change the swarm" % k)
            m.count("returned_copies")
        m.count("calls_judged")

    S.run_session(spec, mon, each)
    for r, c, p in kept:
        mon.check(np.array_equal(r[0], c, equal_nan=True) and np.array_equal(r[1], p), "a returned result changed in a later call",
                  before=(c, p), now=r)


def parallel(spec, mon):
    b = W.build(spec["conf"], spec["seed"], record_topo=False)
    for call in range(spec["calls"]):
        fd, log = tempfile.mkstemp(prefix="rows")
        os.close(fd)
        f = W.RowObj(spec["row"], {"shift": 0.2 * call}, log=log)
        cost, pos = b.opt.optimize(f, spec["iters"], n_processes=spec["procs"], verbose=False, a=float(call))
        rows = []
        for line in open(log):
            r = json.loads(line)
            rows.append(np.frombuffer(base64.b64decode(r["x"])).reshape(r["shape"]))
        os.unlink(log)
        X = np.concatenate([r for r in rows if r.size])
        C = f.value(X, a=float(call))
        ok = C[~np.isnan(C)]
        best = ok.min() if ok.size else np.inf
        mon.count("parallel_rows", len(X))
        mon.check(float(cost) == best, "parallel run: returned cost is not the smallest cost evaluated", got=cost, want=best)
        if best < np.inf:
            mon.check(bool((X[C == best] == np.asarray(pos, float)).all(axis=1).any()), "parallel run: returned position not evaluated with the returned cost",
                      pos=pos, best=X[C == best][:2])
        mon.check(np.shape(pos) == (spec["conf"]["d"],), "returned position has a wrong shape", shape=np.shape(pos))
        mon.check(float(b.opt.cost_history[-1]) == float(cost), "last cost history entry differs from the returned cost")
