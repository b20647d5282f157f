"""C11: tolerance stopping. Scripted best-cost sequences; oracle: the documented rule."""
import numpy as np

from .. import oracle as O
from .. import sessions as S
from .. import work as W


def cases(tier, seed):
    rng = S.rng_for("C11", seed, tier)
    # exact equality with the threshold, ftol = 0, windows at the edge
    i = 0
    exact = [
        ([1.0, 1.0, 1.0, 1.0], 0.0, 1), ([1.0, 0.5, 0.25, 0.25, 0.25], 0.0, 2),
        ([3.0, 2.0, 1.0, 0.0, -1.0], 0.25, 1), ([3.0, 2.0, 1.0, 0.0, -1.0], 0.5, 2), ([1.0, 0.0, -1.0, -3.0], 1.0, 1), ([1.0, 0.0, -1.0, -3.0], 0.5, 1),
        ([-1.0, -2.0, -3.5, -5.75], 0.5, 1), ([0.0, -1.0, -3.0, -7.0, -15.0], 1.0, 2), ([5.0] * 8, 1e-9, 7), ([5.0] * 8, 1e-9, 8), ([5.0] * 8, 1e-9, 3),
        ([np.inf, np.inf, 1.0, 1.0, 1.0, 1.0], 0.1, 1), ([np.inf, 2.0, 2.0, 1.0, 1.0, 1.0, 1.0], 0.1, 2), ([1e300, 1e290, 1.0, 1.0], 0.5, 1),
        ([4.0, 4.0, 4.0, 0.0, 0.0, 0.0, 0.0], 0.1, 3), ([9.0, 0.0, 0.0, 0.0], 100.0, 1), ([1.0, 1.0], 0.1, 1), ([1.0], 0.1, 1),
    ]
    for opt, topo in S.ALL_KINDS:
        for b, f, k in exact:
            for verbose in (False, True):
                if verbose and i % 4:
                    i += 1
                    continue
                i += 1
                yield {"kind": "stop", "seed": i, "opt": opt, "topo": topo, "ftol": f, "ftol_iter": k, "verbose": verbose, "calls": [b, b[::-1], b]}
        yield {"kind": "stop", "seed": i, "opt": opt, "topo": topo, "ftol": None, "ftol_iter": 1, "verbose": False, "calls": [[1.0] * 12, [1.0] * 3]}
        yield {"kind": "stop", "seed": i, "opt": opt, "topo": topo, "ftol": float("-inf"), "ftol_iter": 3, "verbose": False, "calls": [[1.0] * 12]}
    for j in range(60 if tier == "quick" else 1500):
        # long windows and long runs
        opt, topo = W.pick(rng, S.ALL_KINDS[:5] + S.ALL_KINDS[-1:])
        yield {"kind": "stop", "opt": opt, "topo": topo, "ftol": W.pick(rng, [0.0, 1e-300, 1e-9, 1e-4, 0.05, 1e9, float("inf")]),
               "ftol_iter": int(W.pick(rng, [1, 5, 19, 33, 64, 100, 128, 257])), "verbose": False,
               "calls": [gen_best(rng, int(W.pick(rng, [60, 130, 300, 520]))) for _ in range(int(rng.integers(1, 3)))], "reset": bool(rng.random() < 0.2)}
    # the last improvement at a chosen distance: the window is neither shorter nor longer than ftol_iter
    wide = [1, 2, 3, 4, 6, 9, 11, 16, 17, 26, 31, 41, 51, 61, 65, 90, 101, 129, 151, 201, 257, 301] + ([401, 513, 700, 1001, 1500] if tier == "thorough" else [520])
    for j, w in enumerate(wide * (1 if tier == "quick" else 6)):
        for opt, topo in (S.ALL_KINDS[:5] + S.ALL_KINDS[-1:] if w < 400 else [S.ALL_KINDS[j % 5]]):
            gaps = np.cumsum(rng.integers(1, w + 1, int(rng.integers(1, 4))))
            T = int(gaps[-1]) + w + 4
            b = np.full(T, 5.0)
            for g in gaps:
                b[g:] -= 1.0
            yield {"kind": "stop", "opt": opt, "topo": topo, "ftol": W.pick(rng, [0.1, 1e-4, 1e-12]), "ftol_iter": w, "verbose": False, "calls": [[float(v) for v in b]]}
    for j in range(3500 if tier == "quick" else 40000):
        opt, topo = W.pick(rng, S.ALL_KINDS, [.2, .2, .1, .1, .05, .05, .05, .25])
        yield {"kind": "stop", "opt": opt, "topo": topo, "ftol": W.pick(rng, [0.0, 1e-12, 1e-8, 1e-4, 0.01, 0.1, 0.25, 0.5, 1.0, 2.0, 1e3]),
               "ftol_iter": int(W.pick(rng, [1, 1, 2, 3, 4, 7, 12])), "verbose": bool(rng.random() < 0.1),
               "calls": [gen_best(rng) for _ in range(int(rng.integers(1, 4)))], "reset": bool(rng.random() < 0.2)}


def gen_best(rng, T=None):
    T = T or int(W.pick(rng, [1, 2, 3, 5, 8, 13, 20, 30]))
    kind = W.pick(rng, ["plateau", "geometric", "steps", "dyadic", "negative", "late", "inf"])
    if kind == "plateau":
        b = np.cumsum(np.where(rng.random(T) < 0.3, -rng.random(T), 0.0)) + rng.normal()
    elif kind == "geometric":
        b = rng.uniform(0.1, 10) * rng.uniform(0.3, 0.99) ** np.arange(T)
    elif kind == "steps":
        b = -np.cumsum(rng.integers(0, 2, T)).astype(float) + 3
    elif kind == "dyadic":
        b = 4.0 - np.cumsum(rng.integers(0, 5, T) / 4.0)
    elif kind == "negative":
        b = -np.cumsum(np.where(rng.random(T) < 0.5, 10.0 ** rng.uniform(-6, 4, T), 0))
    elif kind == "late":
        b = np.full(T, 2.0)
        b[-1] = -5.0
    else:
        b = np.where(np.arange(T) < rng.integers(0, T + 1), np.inf, 1.0 - 0.001 * np.arange(T))
    if rng.random() < 0.25:  # costs of all sizes
        b = b * 10.0 ** float(rng.uniform(-15, 15))
    if rng.random() < 0.1:
        b = b + W.pick(rng, [1e15, -1e15, 1e12, -1e12, 1e9])
    # costs may also get worse; only the best so far counts
    w = rng.random(T) < 0.2
    b = np.where(w, b + 5 * max(1.0, float(np.abs(b[np.isfinite(b)]).max(initial=0.0))), b)
    return [float(v) for v in b]


def run(spec, mon):
    n, d = 5, 2
    c = S.base_conf(spec["opt"], n=n, d=d, topo=spec["topo"], ftol=spec["ftol"], ftol_iter=spec["ftol_iter"], verbose=spec["verbose"])
    if spec["ftol"] is None:
        c["ftol_iter"] = 1
    b = W.build(c, spec["seed"], record_topo=False)
    rng = np.random.default_rng(spec["seed"])
    ftol = -np.inf if spec["ftol"] is None else spec["ftol"]
    for i, best in enumerate(spec["calls"]):
        if i and spec.get("reset"):
            b.opt.reset()
        T = len(best)
        fin = np.isfinite(np.array(best))
        C = np.array(best)[:, None] + np.where(fin[:, None], (rng.random((T, n)) * 3 + 0.5) * max(1.0, float(np.abs(np.array(best)[fin]).max(initial=0.0)) * 1e-6), 0)
        C[np.arange(T), rng.integers(0, n, T)] = best
        call = {"iters": T, "obj": {"costs": C.tolist()}, "ret": "plain", "kwargs": {}}
        tr = W.do_call(b, call, spec["seed"])
        if tr.error is not None:
            mon.fail("objective called too often", error=repr(tr.error))
            return
        run_best = np.minimum.accumulate(best)
        s = O.stop_iteration(run_best, ftol, spec["ftol_iter"])
        want = T if s is None else s + 1
        mon.count("stopping_runs" if s is not None and s + 1 < T else "full_runs")
        mon.seen("stop_at", (s, T, spec["ftol_iter"]))
        mon.check(len(tr.X) == want, "the run %s" % ("stops too early" if len(tr.X) < want else "does not stop"), iterations=len(tr.X), want=want,
                  best=run_best, ftol=ftol, ftol_iter=spec["ftol_iter"], call=i, opt=spec["opt"])
        mon.check(tr.h1[0] - tr.h0[0] == want, "history length differs from the iterations")
