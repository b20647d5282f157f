"""C13: parallel = serial. Monitors: a call log written by the objective from the worker processes
(flock-ed file: pid, rows, keyword arguments), equality with the serial twin, process table."""
import gc
import json
import multiprocessing
import os
import shutil
import subprocess
import tempfile
import time

import numpy as np

import pyswarms as ps

from .. import core
from .. import env
from .. import monitors as M
from .. import oracle as O
from .. import sessions as S
from .. import work as W
from .c03 import read_log, tile


def cases(tier, seed):
    rng = S.rng_for("C13", seed, tier)
    i = 0
    for opt, topo in S.ALL_KINDS:
        for n, procs in [(6, 1), (6, 2), (6, 4), (5, 8), (7, 3), (6, 6), (12, 5)]:
            i += 1
            yield {"kind": "twin", "seed": i, "conf": S.base_conf(opt, n=n, d=2, topo=topo), "procs": procs, "row": ["sphere", "rastrigin", "weird", "mixregion"][i % 4],
                   "iters": [4, 3], "kwargs": [{}, {"a": 1.25, "b": -2.0}][i % 2], "delay": [None, 0.01][(i // 2) % 2]}
    for n, procs, iters in [(61, 7, 3), (130, 3, 2), (257, 8, 2), (100, 13, 2), (33, 32, 2), (5, 2, 120), (3, 4, 60), (40, 41, 2)]:
        for opt, topo in [("gbest", None), ("general", "ring"), ("binary", None)]:
            i += 1
            yield {"kind": "twin", "seed": i, "conf": S.base_conf(opt, n=n, d=3, topo=topo), "procs": procs, "row": ["sphere", "rastrigin", "weird"][i % 3], "iters": [iters], "kwargs": {}, "delay": None}
    for opt, topo in S.ALL_KINDS:  # runs that stop early
        for w, procs in [(1, 2), (3, 3), (2, 1), (4, 4)]:
            i += 1
            yield {"kind": "twin", "seed": i, "conf": S.base_conf(opt, n=6, d=2, topo=topo, ftol=1e-3, ftol_iter=w), "procs": procs, "row": ["const", "step"][i % 2],
                   "iters": [25, 12], "kwargs": {}, "delay": None}
    for exc in ("ValueError", "Boom", "KeyError", "ZeroDivisionError", "RuntimeError", "AttributeError", "TypeError", "StopIteration", "MemoryError", "IndexError"):
        for opt, topo in [("gbest", None), ("lbest", None), ("general", "ring"), ("binary", None)]:
            i += 1
            yield {"kind": "error", "seed": i, "conf": S.base_conf(opt, n=6, d=2, topo=topo), "procs": 1 + i % 4, "exc": exc}
    for k, (pause, procs) in enumerate([(12.0, 2)] if tier == "quick" else [(12.0, 1), (35.0, 3), (70.0, 2), (125.0, 2)]):
        yield {"kind": "slow", "seed": 70 + k, "conf": S.base_conf(["gbest", "lbest", "general", "binary"][k], n=4, d=2, topo=["star", "ring", "random", None][k]), "pause": pause, "procs": procs}
    for k, method in enumerate(["spawn", "forkserver"] * (1 if tier == "quick" else 5)):
        yield {"kind": "method", "seed": 60 + k, "method": method, "procs": 2 + k % 3, "confs": [W.gen_conf(rng, opt=o, n=6, topo="ring") for o in ("gbest", "lbest", "general", "binary")]}
    for j in range(130 if tier == "quick" else 1200):
        c = W.gen_conf(rng, n=W.pick(rng, [1, 2, 3, 4, 5, 7, 9, 16, 24]), p_ftol=0.4)
        yield {"kind": "twin", "conf": c, "procs": int(W.pick(rng, [1, 2, 3, 4, 5, 8, c["n"], c["n"] + 2])) if c["n"] < 12 else int(rng.integers(1, 7)),
               "row": W.pick(rng, ["sphere", "rastrigin", "weird", "mixregion", "step", "const", "infregion", "linear"]),
               "iters": [int(rng.integers(1, 8)) for _ in range(1 + int(rng.random() < 0.4))],
               "kwargs": W.pick(rng, [{}, {"a": 1.5}, {"swarm": 1, "pool": 2}, {"a": -3.0, "b": 2.0, "tag": [1, 2]}]), "delay": W.pick(rng, [None, None, 0.004, 0.02])}


def run(spec, mon):
    return globals()["k_" + spec["kind"]](spec, mon)


def gone(pids, mon, what):
    """Worker processes vanish once the pool is dropped; waits for the operating system, never judges speed."""
    end = time.time() + 30
    left = set(pids)
    while left and time.time() < end:
        gc.collect()
        multiprocessing.active_children()
        left = {p for p in left if alive(p)}
        if left:
            time.sleep(0.01)
    mon.check(not left, what, left=sorted(left))


def alive(pid):
    try:
        with open("/proc/%d/stat" % pid) as f:
            return f.read().rsplit(")", 1)[1].split()[0] not in ("Z", "X")
    except OSError:
        return False


def state(opt):
    sw = opt.swarm
    return {h: [np.array(e) for e in getattr(opt, h)] for h in W.HIST} | {
        "position": np.array(sw.position), "velocity": np.array(sw.velocity), "pbest_pos": np.array(sw.pbest_pos),
        "pbest_cost": np.array(sw.pbest_cost), "best_cost": np.array(sw.best_cost), "best_pos": np.array(sw.best_pos)}


def same_state(a, b):
    for k in a:
        if isinstance(a[k], list):
            if len(a[k]) != len(b[k]):
                return "%s has %d instead of %d entries" % (k, len(b[k]), len(a[k]))
            for t, (x, y) in enumerate(zip(a[k], b[k])):
                if not np.array_equal(x, y, equal_nan=True):
                    return "%s differs in iteration %d: %s" % (k, t, W_short(x, y))
        elif not np.array_equal(a[k], b[k], equal_nan=True):
            return "%s differs: %s" % (k, W_short(a[k], b[k]))
    return None


def W_short(x, y):
    return "%s / %s" % (np.array2string(np.asarray(x), threshold=6), np.array2string(np.asarray(y), threshold=6))


def k_twin(spec, mon):
    c, kw = spec["conf"], spec["kwargs"]
    n, d = c["n"], c["d"]
    fd, log = tempfile.mkstemp(prefix="rows")
    os.close(fd)
    res = {}
    for mode in ("serial", "parallel"):
        np.random.seed(spec["seed"] % 2**32)
        b = W.build(c, spec["seed"], record_topo=False)
        out, used = [], 0
        pids = set()
        for k, T in enumerate(spec["iters"]):
            f = W.RowObj(spec["row"], {"shift": 0.1 * k, "loop": 1}, log=log if mode == "parallel" else None, delay=spec["delay"] if mode == "parallel" else None)
            before = {p.pid for p in multiprocessing.active_children()}
            r = b.opt.optimize(f, T, n_processes=spec["procs"] if mode == "parallel" else None, verbose=False, **kw)
            out.append((np.array(r[0]), np.array(r[1])))
            left = [p.pid for p in multiprocessing.active_children() if p.pid not in before]
            mon.check(not left, "optimize() returned while its worker processes are still there", left=len(left), procs=spec["procs"])
            if mode == "parallel":
                rows = read_log(log)[used:]
                used += len(rows)
                pids |= {q["pid"] for q in rows}
                judge_rows(rows, [np.asarray(p, float) for p in b.opt.pos_history][len(b.opt.pos_history) - len(rows_per(rows, n)):], n, d, kw, spec, mon)
        if mode == "parallel":
            mon.check(os.getpid() not in pids, "the objective was evaluated in the calling process")
            mon.check(len(pids) <= spec["procs"] * len(spec["iters"]), "more worker processes than asked for", pids=len(pids), procs=spec["procs"])
            mon.seen("workers", (spec["procs"], len(pids)))
        res[mode] = (out, state(b.opt))
        del b
        if mode == "parallel":
            gone(pids, mon, "worker processes survive the call")
    os.unlink(log)
    for k, (x, y) in enumerate(zip(res["serial"][0], res["parallel"][0])):
        mon.check(np.array_equal(x[0], y[0], equal_nan=True) and np.array_equal(x[1], y[1], equal_nan=True),
                  "parallel run returned another result than the serial one", call=k, serial=x, parallel=y, procs=spec["procs"])
    msg = same_state(res["serial"][1], res["parallel"][1])
    mon.check(msg is None, "parallel run recorded something else than the serial one", why=msg, procs=spec["procs"])
    mon.count("twins")


def rows_per(rows, n):
    """Split the log into iterations (every iteration evaluates n rows before the next one starts)."""
    out, cur, k = [], [], 0
    for r in rows:
        cur.append(r)
        k += len(r["x"])
        if k >= n:
            out.append(cur)
            cur, k = [], 0
    if cur:
        out.append(cur)
    return out


def judge_rows(rows, P, n, d, kw, spec, mon):
    want = {k: repr(v) for k, v in sorted(kw.items())}
    for t, group in enumerate(rows_per(rows, n)):
        for r in group:
            mon.check(len(r["shape"]) == 2 and r["shape"][0] >= 1 and r["shape"][1] == d, "the objective got a batch of shape %s" % r["shape"], procs=spec["procs"])
            mon.check(r["kw"] == want, "the objective got other keyword arguments", got=r["kw"], want=want)
            mon.count("batches")
        mon.check(t < len(P) and sum(len(r["x"]) for r in group) == n and tile(P[t], [r["x"] for r in group]),
                  "an iteration does not evaluate each particle exactly once", t=t, rows=[len(r["x"]) for r in group], n=n)
    mon.check(len(rows_per(rows, n)) == len(P), "wrong number of evaluated iterations")


SCRIPT = """
import json, multiprocessing as mp, sys

def main():
    spec = json.load(open(sys.argv[1]))
    mp.set_start_method(spec["method"])
    import numpy as np
    from mon import env, work as W
    from mon.checks.c13 import same_state, state
    env.quiet()
    bad = []
    for c in spec["confs"]:
        got = []
        for procs in (None, spec["procs"]):
            np.random.seed(spec["seed"])
            b = W.build(c, spec["seed"], record_topo=False)
            f = W.RowObj("rastrigin", {"shift": 0.1, "loop": 1})
            r = b.opt.optimize(f, 3, n_processes=procs, verbose=False, a=1.25)
            got.append((float(r[0]), np.array(r[1]).tolist(), state(b.opt)))
        bad.append([got[0][0] == got[1][0] and got[0][1] == got[1][1], same_state(got[0][2], got[1][2])])
    print("RESULT" + json.dumps(dict(bad=bad, children=len(mp.active_children()), method=mp.get_start_method())))

if __name__ == "__main__":
    main()
"""


class Slow:
    """Takes its time for each batch."""

    def __init__(self, pause):
        self.pause = pause

    def __call__(self, x):
        time.sleep(self.pause)
        return np.asarray(x, float).sum(axis=1)


def k_slow(spec, mon):
    """An evaluation may take longer than any patience."""
    res = []
    for procs, pause in ((None, 0.0), (spec["procs"], spec["pause"])):
        np.random.seed(spec["seed"])
        b = W.build(spec["conf"], spec["seed"], record_topo=False)
        r = b.opt.optimize(Slow(pause), 1, n_processes=procs, verbose=False)
        res.append((np.array(r[0]), np.array(r[1]), state(b.opt)))
    mon.check(np.array_equal(res[0][0], res[1][0]) and np.array_equal(res[0][1], res[1][1]) and same_state(res[0][2], res[1][2]) is None,
              "a slow objective gives another result in parallel", pause=spec["pause"])
    mon.count("slow_evaluations")


def k_method(spec, mon):
    """Other ways of starting processes, in which workers inherit nothing from their parent."""
    d = tempfile.mkdtemp(prefix="method")
    try:
        with open(os.path.join(d, "main.py"), "w") as f:
            f.write(SCRIPT)
        with open(os.path.join(d, "spec.json"), "w") as f:
            json.dump(spec, f)
        e = dict(os.environ, PYTHONPATH=env.VERIF + os.pathsep + env.REPO)
        r = subprocess.run([env.PY, "main.py", "spec.json"], cwd=d, env=e, capture_output=True, text=True, timeout=300)
        got = [q for q in r.stdout.splitlines() if q.startswith("RESULT")]
        if r.returncode or not got:
            if env.REPO + "/" in r.stderr:
                mon.fail("a parallel run fails with start method %s" % spec["method"], trace=r.stderr[-1200:])
                return
            raise core.HarnessError(r.stderr[-1500:])
        g = json.loads(got[0][6:])
        for c, (same, why) in zip(spec["confs"], g["bad"]):
            mon.check(same and why is None, "parallel run with start method %s differs from the serial one" % spec["method"], opt=c["opt"], why=why)
            mon.count("twins")
        mon.check(g["children"] == 0, "worker processes survive the call", method=spec["method"])
        mon.check(g["method"] == spec["method"], "the start method was changed", got=g["method"])
        mon.seen("methods", spec["method"])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def k_error(spec, mon):
    np.random.seed(spec["seed"])
    fd, log = tempfile.mkstemp(prefix="rows")
    os.close(fd)
    b = W.build(spec["conf"], spec["seed"], record_topo=False)
    msg = "told you so %d" % spec["seed"]
    f = W.RowObj("sphere", {}, log=log, boom={"below": 1e9, "exc": spec["exc"], "msg": msg})
    err = None
    try:
        b.opt.optimize(f, 4, n_processes=spec["procs"], verbose=False)
    except Exception as e:
        err = e
    pids = {r["pid"] for r in read_log(log)}
    os.unlink(log)
    mon.check(err is not None, "an error of the objective in a worker was swallowed")
    mon.check(type(err) is W.EXC[spec["exc"]] and err.args == (msg,), "the objective's error reaches the caller changed", got=repr(err), want=(spec["exc"], msg))
    mon.check(len(b.opt.cost_history) == 0, "history has an entry for a failed iteration")
    # the error's traceback keeps the pool alive, as for any Python caller
    err = None
    del b
    gone(pids, mon, "worker processes survive a failed call")
    mon.count("worker_errors")
