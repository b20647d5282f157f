"""Workloads: random optimizer configurations, objectives, and recorded runs.

Everything is built from a JSON spec so that a case can be replayed. Runs are
observed only through public boundaries: the objective callback, the return
value, the documented history attributes and the documented swarm attributes."""
import base64
import copy
import fcntl
import json
import math
import os

import numpy as np

import pyswarms as ps
from pyswarms.backend.topology import Pyramid, Random, Ring, Star, VonNeumann
from pyswarms.backend.swarms import Swarm

HIST = ("cost_history", "mean_pbest_history", "mean_neighbor_history", "pos_history", "velocity_history")
TOPO = {"star": Star, "ring": Ring, "vonneumann": VonNeumann, "pyramid": Pyramid, "random": Random}
BH = ["nearest", "reflective", "shrink", "random", "intermediate", "periodic"]
OH = ["exp_decay", "lin_variation", "nonlin_mod", "random"]


class Stop(Exception):
    """Raised by the harness out of an objective that is called too often."""


class Boom(Exception):
    """Injected objective failure."""


# --------------------------------------------------------------- objectives

class RowObj:
    """Deterministic, row-wise, picklable objective. Optionally logs every call
    (pid, rows) to a file, which works from any process."""

    def __init__(self, name, params=None, log=None, delay=None, boom=None):
        self.name, self.params, self.log, self.delay, self.boom = name, params or {}, log, delay, boom

    def __call__(self, x, **kw):
        y = self.value(x, **kw)
        if self.log:
            rec = {
                "pid": os.getpid(), "shape": list(x.shape), "dtype": str(x.dtype),
                "x": base64.b64encode(np.ascontiguousarray(x, dtype=float).tobytes()).decode(),
                "kw": {k: repr(v) for k, v in sorted(kw.items())},
            }
            line = (json.dumps(rec) + "\n").encode()
            fd = os.open(self.log, os.O_WRONLY | os.O_APPEND | os.O_CREAT, 0o644)
            try:
                fcntl.flock(fd, fcntl.LOCK_EX)
                while line:
                    line = line[os.write(fd, line):]
            finally:
                os.close(fd)
        if self.delay:
            import time

            h = abs(hash(np.ascontiguousarray(x[:1], dtype=float).tobytes())) % 1000 / 1000.0
            time.sleep(self.delay * h)
        if self.boom is not None:
            lo = self.boom.get("below")
            if lo is not None and (x[:, 0] < lo).any():
                raise EXC[self.boom["exc"]](self.boom["msg"])
        return y

    def value(self, x, a=0.0, b=1.0, **kw):
        p = self.params
        n = self.name
        # same memory layout and vector length for every chunking, so that results are bit-identical
        x = np.ascontiguousarray(x, dtype=float)
        if p.get("loop") and len(x) > 1:
            return np.concatenate([self.value(x[i:i + 1], a, b, **kw) for i in range(len(x))])
        s = p.get("shift", 0.0)
        if n == "sphere":
            y = ((x - s) ** 2).sum(axis=1)
        elif n == "rastrigin":
            z = x - s
            y = (z ** 2 - 3.0 * np.cos(5 * z)).sum(axis=1)
        elif n == "linear":
            y = (x * (1 + np.arange(x.shape[1]))).sum(axis=1)
        elif n == "const":
            y = np.full(x.shape[0], 3.25)
        elif n == "step":
            y = np.floor(3.0 * (np.abs(x - s)).sum(axis=1))
        elif n == "negsphere":
            y = -((x - s) ** 2).sum(axis=1)
        elif n == "nanregion":
            y = np.where(x[:, 0] > s, np.nan, ((x - s) ** 2).sum(axis=1))
        elif n == "infregion":
            y = np.where(x[:, 0] > s, np.inf, ((x - s) ** 2).sum(axis=1))
        elif n == "mixregion":
            q = ((x - s) ** 2).sum(axis=1)
            y = np.where(x[:, 0] > s, np.nan, np.where(x[:, -1] < s, np.inf, q))
        elif n == "allinf":
            y = np.full(x.shape[0], np.inf)
        elif n == "allnan":
            y = np.full(x.shape[0], np.nan)
        elif n == "huge":
            y = 1e290 * (1 + np.tanh(x).sum(axis=1))
        elif n == "tiny":
            y = 1e-290 * (1 + np.tanh(x).sum(axis=1))
        elif n == "offset":
            y = 1e6 + 1e-9 * ((x - s) ** 2).sum(axis=1)
        elif n == "bits":
            y = -(x * (1 + np.arange(x.shape[1]) % 3)).sum(axis=1)
        elif n == "weird":
            y = np.sin(37 * x).sum(axis=1) + np.cos(11 * x * x).sum(axis=1)
        else:  # pragma: no cover
            raise KeyError(n)
        return y * b + a


EXC = {"Boom": Boom, "ValueError": ValueError, "KeyError": KeyError, "ZeroDivisionError": ZeroDivisionError,
       "AttributeError": AttributeError, "TypeError": TypeError, "RuntimeError": RuntimeError,
       "StopIteration": StopIteration, "KeyboardInterrupt": KeyboardInterrupt, "SystemExit": SystemExit,
       "MemoryError": MemoryError, "FloatingPointError": FloatingPointError, "IndexError": IndexError}


def script_costs(kind, rng, T, n):
    """A cost matrix that does not depend on the positions at all."""
    if kind == "random":
        return rng.normal(size=(T, n))
    if kind == "ties":
        return rng.integers(0, 4, (T, n)).astype(float)
    if kind == "decreasing":
        return np.sort(rng.normal(size=(T, n)), axis=0)[::-1] * 3
    if kind == "increasing":
        return np.sort(rng.normal(size=(T, n)), axis=0)
    if kind == "nanmix":
        c = rng.normal(size=(T, n))
        c[rng.random((T, n)) < 0.3] = np.nan
        c[rng.random((T, n)) < 0.2] = np.inf
        return c
    if kind == "firstinf":
        c = rng.normal(size=(T, n))
        c[: int(rng.integers(1, max(2, T)))] = np.inf
        return c
    if kind == "firstnan":
        c = rng.normal(size=(T, n))
        c[: int(rng.integers(1, max(2, T)))] = np.nan
        return c
    if kind == "ulp":
        base = rng.normal() * 10.0 ** int(rng.integers(-5, 6))
        c = np.full((T, n), base)
        v = base
        for t in range(T):
            if rng.random() < 0.5:
                v = np.nextafter(v, -np.inf)
            c[t] = base
            c[t, int(rng.integers(n))] = v
        return c
    if kind == "onegood":
        c = np.full((T, n), 5.0)
        c[int(rng.integers(T)), int(rng.integers(n))] = -1.0
        return c
    if kind == "firstbest":
        c = rng.random((T, n)) + 1
        c[0] = -rng.random(n)
        return c
    if kind == "lastbest":
        c = rng.random((T, n)) + 1
        c[-1] = -rng.random(n)
        return c
    if kind == "neginf":
        c = rng.normal(size=(T, n))
        c[int(rng.integers(T)), int(rng.integers(n))] = -np.inf
        return c
    if kind == "denormal":  # the smallest numbers there are
        return np.sort(rng.integers(-3, 40, (T, n)) * 2.0 ** -1074 * 10.0 ** int(rng.integers(0, 12)), axis=0)[::-1]
    if kind == "zero":
        return np.zeros((T, n)) * rng.choice([1.0, -1.0], (T, n))
    raise KeyError(kind)


SCRIPTS = ["random", "ties", "decreasing", "increasing", "nanmix", "firstinf", "firstnan", "ulp", "onegood",
           "firstbest", "lastbest", "neginf", "zero", "denormal"]
ROWS = ["sphere", "rastrigin", "linear", "const", "step", "negsphere", "nanregion", "infregion", "mixregion",
        "allinf", "huge", "tiny", "offset", "weird"]
# an array of one cost per particle is what the documentation asks for; lists and masked arrays are not judged
RETURNS = ["plain", "buffer", "strided", "int", "f32", "readonly", "view"]


class Call:
    __slots__ = ("x", "x_ref", "y", "kw", "t", "opts", "hlen", "top")


class Rec:
    """Objective callback that records what it was given and what it returned."""

    def __init__(self, fn, ret="plain", limit=10**9, opt=None, hook=None):
        self.fn, self.ret, self.limit, self.opt, self.hook = fn, ret, limit, opt, hook
        self.calls = []
        self._buf = None

    def __call__(self, x, **kw):
        if len(self.calls) >= self.limit:
            raise Stop("objective called more often than iterations were requested")
        c = Call()
        c.t = len(self.calls)
        c.x_ref, c.x = x, np.array(x, copy=True)
        c.kw = kw
        c.opts = dict(self.opt.swarm.options) if self.opt is not None else None
        c.hlen = [len(getattr(self.opt, h)) for h in HIST] if self.opt is not None else None
        c.y = None
        self.calls.append(c)
        if self.hook:
            self.hook(self, c)
        with np.errstate(all="ignore"):
            return self.result(c, kw)

    def result(self, c, kw):
        y = self.fn(c.x, c.t, kw)
        y = np.asarray(y)
        if self.ret == "int":
            y = np.nan_to_num(np.clip(np.floor(np.nan_to_num(y, nan=9e5, posinf=9e5, neginf=-9e5)), -1e6, 1e6)).astype(int)
        elif self.ret == "f32":
            y = y.astype(np.float32)
        c.y = np.array(y, dtype=float)
        if self.ret == "buffer":
            if self._buf is None or self._buf.shape != y.shape:
                self._buf = np.empty(y.shape)
            self._buf[...] = y
            return self._buf
        if self.ret == "strided":
            z = np.empty(2 * y.size)
            z[::2] = y
            return z[::2]
        if self.ret == "readonly":
            y = y.copy()
            y.setflags(write=False)
            return y
        if self.ret == "view":
            z = np.array(y, dtype=float).reshape(1, -1)
            return z[0]
        return y


def make_fn(o, n, seed):
    """o: {'row': name, 'params':..} | {'script': kind, 'T':..} | {'noisy':1}. Returns fn(x, t, kw)."""
    if "row" in o:
        r = RowObj(o["row"], o.get("params"))
        return lambda x, t, kw: r.value(x, **{k: v for k, v in kw.items() if k in ("a", "b") and isinstance(v, (int, float))})
    if "script" in o:
        C = script_costs(o["script"], np.random.default_rng(o.get("s", seed)), o["T"], n)
        return lambda x, t, kw: C[min(t, len(C) - 1)]
    if "costs" in o:
        C = np.array(o["costs"], dtype=float)
        return lambda x, t, kw: C[min(t, len(C) - 1)] if C.ndim == 2 else np.full(n, C[min(t, len(C) - 1)])
    if "noisy" in o:
        g = np.random.default_rng(o.get("s", seed))
        return lambda x, t, kw: ((x - 0.3) ** 2).sum(axis=1) + g.normal(size=x.shape[0])
    raise KeyError(o)


# ---------------------------------------------------------------- configurations

def delannoy(d, r):
    return sum(math.comb(d, i) * math.comb(r, i) * 2 ** i for i in range(min(d, r) + 1))


def pick(rng, seq, p=None):
    return seq[int(rng.choice(len(seq), p=p))]


def gen_bounds(rng, d, limit=None):
    kind = pick(rng, ["unit", "sym", "mixed", "mixed", "tiny", "huge", "asym", "neg", "ints", "sliver"])
    if limit == "moderate" and kind in ("huge", "tiny", "sliver"):
        kind = "mixed"
    if kind == "unit":
        lb, ub = np.zeros(d), np.ones(d)
    elif kind == "sym":
        v = float(rng.uniform(0.5, 10))
        lb, ub = np.full(d, -v), np.full(d, v)
    elif kind == "mixed":
        lb = rng.uniform(-8, 8, d)
        ub = lb + rng.uniform(0.05, 9, d)
    elif kind == "tiny":
        lb = rng.uniform(-1, 1, d)
        ub = lb + rng.uniform(1e-7, 1e-5, d)
    elif kind == "sliver":
        lb = rng.uniform(-1, 1, d) * pick(rng, [0.0, 1e-9, 1.0])
        ub = lb + 10.0 ** rng.uniform(-12, -7, d)
    elif kind == "huge":
        lb = -rng.uniform(1e5, 1e9, d)
        ub = rng.uniform(1e5, 1e9, d)
    elif kind == "asym":
        lb = np.where(rng.random(d) < 0.5, -0.1, -500.0)
        ub = np.where(rng.random(d) < 0.5, 0.3, 700.0)
    elif kind == "neg":
        lb = rng.uniform(-20, -10, d)
        ub = lb + rng.uniform(0.1, 5, d)
    else:
        lb = rng.integers(-5, 1, d).astype(float)
        ub = lb + rng.integers(1, 6, d)
    return [lb.tolist(), ub.tolist()]


def gen_clamp(rng, d, scalar=False):
    k = pick(rng, ["sym", "asym", "pos", "neg", "narrow", "wide", "perdim", "zero"] + (["point"] if rng.random() < 0.3 else []))
    if k == "point":  # one admissible velocity
        v = pick(rng, [0.0, float(rng.uniform(-1, 1))])
        return [v, v]
    if k == "sym":
        v = float(rng.uniform(0.05, 2))
        return [-v, v]
    if k == "asym":
        return [-float(rng.uniform(0.01, 1)), float(rng.uniform(0.5, 3))]
    if k == "pos":
        return [float(rng.uniform(0.01, 0.2)), float(rng.uniform(0.3, 1))]
    if k == "neg":
        return [-float(rng.uniform(0.5, 1)), -float(rng.uniform(0.01, 0.2))]
    if k == "narrow":
        mid, half = pick(rng, [0.0, 0.0, float(rng.uniform(-1, 1))]), float(10.0 ** rng.uniform(-13, -4))
        return [mid - half, mid + half]
    if k == "wide":
        return [-1e6, 1e6]
    if k == "perdim" and not scalar:
        lo = -rng.uniform(0.01, 2, d)
        return [lo.tolist(), (lo + rng.uniform(0.1, 3, d)).tolist()]
    return [0.0, float(rng.uniform(0.2, 2))]


def gen_conf(rng, **fix):
    """A random valid optimizer configuration (JSON-able)."""
    c = {}
    c["opt"] = fix.get("opt") or pick(rng, ["gbest", "lbest", "general", "binary"], [0.25, 0.25, 0.35, 0.15])
    n = fix.get("n") or pick(rng, [1, 2, 3, 4, 5, 6, 8, 10, 13, 20, 35, 60, 130],
                             [.06, .07, .08, .08, .11, .11, .13, .12, .08, .07, .05, .03, .01])
    d = fix.get("d") or pick(rng, [1, 2, 3, 4, 5, 7, 12, 30], [.13, .25, .2, .13, .11, .1, .06, .02])
    c["topo"] = None
    if c["opt"] == "general":
        c["topo"] = fix.get("topo") or pick(rng, list(TOPO))
        if c["topo"] == "pyramid":
            d = min(max(d, 2), 4)
            n = min(n, 35)
        if c["topo"] == "random":
            n = max(n, 3)
        if c["topo"] == "vonneumann":
            d = min(d, 5)
    c["n"], c["d"] = n, d
    c["static"] = bool(rng.random() < 0.5)
    cc = [0.0, 0.3, 0.5, 1.0, 1.49, 2.05, 2.5]
    o = {"c1": pick(rng, cc, [.08, .12, .2, .2, .2, .12, .08]), "c2": pick(rng, cc, [.08, .12, .2, .2, .2, .12, .08]),
         "w": pick(rng, [0.0, 0.3, 0.5, 0.729, 0.9, 1.0, 1.2, -0.3], [.08, .14, .18, .2, .2, .1, .06, .04])}
    if rng.random() < 0.15:
        o = {"c1": float(rng.uniform(0, 2)), "c2": float(rng.uniform(0, 2)), "w": float(rng.uniform(0, 1))}
    if rng.random() < 0.08:  # all sizes of coefficients
        o = {q: float(10.0 ** rng.uniform(-7, 1)) for q in ("c1", "c2", "w")}
    kmax = n
    if c["opt"] in ("lbest", "binary") or c["topo"] == "ring":
        o["k"] = int(pick(rng, [1, 2, 3, kmax, int(rng.integers(1, kmax + 1))]))
        o["k"] = max(1, min(o["k"], kmax))
        o["p"] = int(rng.integers(1, 3))
    elif c["topo"] == "random":
        o["k"] = int(pick(rng, [1, 2, max(1, n - 2), int(rng.integers(1, n))]))
        o["k"] = max(1, min(o["k"], max(1, n - 2)))
    elif c["topo"] == "vonneumann":
        rs = [r for r in range(0, 6) if delannoy(d, r) <= n]
        o["r"] = int(pick(rng, rs))
        o["p"] = int(rng.integers(1, 3))
    if rng.random() < 0.1 and c["opt"] == "gbest":
        o["k"], o["p"] = 2, 2  # unused extras are allowed
    c["options"] = o
    cont = c["opt"] != "binary"
    bounded = fix.get("bounded")
    if bounded is None:
        bounded = rng.random() < 0.6
    c["bounds"] = None
    c["bounds_as"] = "array"
    if cont and bounded:
        c["bounds"] = gen_bounds(rng, d, "moderate" if c["topo"] == "pyramid" else None)
        c["bounds_as"] = pick(rng, ["array", "array", "list", "listofarrays", "ints", "listoflists"])
    c["bh"] = fix.get("bh") or pick(rng, BH) if cont else None
    if cont and c["bounds"]:
        c["vh"] = pick(rng, ["unmodified", "invert", "zero", "adjust"], [.4, .28, .28, .04])
    else:
        c["vh"] = "unmodified"
    if not cont and rng.random() < 0.03:
        c["vh"] = "adjust"
    if "vh" in fix:
        c["vh"] = fix["vh"]
    c["oh"] = None
    if cont and rng.random() < fix.get("p_oh", 0.3):
        c["oh"] = {k: pick(rng, OH) for k in ("w", "c1", "c2") if rng.random() < 0.6}
    c["clamp"] = gen_clamp(rng, d) if rng.random() < 0.4 else None
    if c["topo"] == "pyramid" and not c["bounds"]:
        # unbounded swarms may drift so far that joggling fails in Qhull; keep them near
        c["clamp"] = [-1.0, 1.0]
    c["center"] = 1.0
    c["init"] = pick(rng, [None, "float", "int", "same", "corner", "fortran", "dups", "wide"], [.53, .11, .07, .06, .07, .05, .06, .05])
    if c["topo"] == "pyramid" and c["init"] in ("same", "wide"):
        c["init"] = "float"
    c["ftol"], c["ftol_iter"] = None, 1
    if rng.random() < fix.get("p_ftol", 0.0):
        c["ftol"] = pick(rng, [0.0, 1e-12, 1e-6, 1e-2, 0.1, 1.0])
        c["ftol_iter"] = int(pick(rng, [1, 2, 3, 5, 9]))
    c["verbose"] = bool(rng.random() < 0.15)
    if cont and c["init"] is None and c["topo"] != "pyramid" and rng.random() < 0.08:
        # scaled initial positions that stay inside
        if not c["bounds"]:
            c["center"] = pick(rng, [0.5, 4.0, -1.0])
        elif all(l <= 0 <= u for l, u in zip(*c["bounds"])):
            c["center"] = pick(rng, [0.5, 0.125])
    return c


def gen_call(rng, n, iters=None, script_p=0.4):
    T = iters or pick(rng, [1, 2, 3, 5, 8, 13, 21, 40, 80, 130], [.07, .09, .12, .16, .18, .16, .11, .06, .04, .01])
    u = rng.random()
    if u < script_p:
        o = {"script": pick(rng, SCRIPTS), "T": T, "s": int(rng.integers(1 << 30))}
    elif u < script_p + 0.05:
        o = {"noisy": 1, "s": int(rng.integers(1 << 30))}
    else:
        o = {"row": pick(rng, ROWS), "params": {"shift": round(float(rng.uniform(-2, 2)), 3)}}
    call = {"iters": T, "obj": o, "ret": pick(rng, RETURNS, [.64] + [.06] * 6), "kwargs": {}}
    if rng.random() < 0.3:
        call["kwargs"] = pick(rng, [{"swarm": 1, "pool": None}, {"pool": 2, "position": 3}, {"func": "f", "objective": 1, "bounds": [0, 1]}, {"kwargs": {"a": 1}, "args": [1]},
                                    {"options": {"w": 1}, "velocity": 0.5, "name": "x", "cost": 7}, {"a": 1.5}, {"a": -2.0, "b": 3.0}, {"foo": "bar"}, {"x0": [1, 2]}, {"a": 0.25, "k": 3, "p": None}])
        if "row" in o:
            call["kwargs"] = {k: v for k, v in call["kwargs"].items()}
    return call


def make_init(c, seed):
    kind = c["init"]
    if kind is None:
        return None
    rng = np.random.default_rng([seed, 77])
    n, d = c["n"], c["d"]
    if c["opt"] == "binary":
        x = rng.integers(0, 2, (n, d))
        if kind == "same":
            x[:] = x[0]
        if kind == "dups":
            x[: n // 2 + 1] = x[0]
        if kind == "corner":
            x[:] = 1
        if kind == "float":
            x = x.astype(float)
        if kind == "fortran":
            x = np.asfortranarray(x)
        return x
    if c["bounds"]:
        lb, ub = np.array(c["bounds"][0]), np.array(c["bounds"][1])
    else:
        lb, ub = np.full(d, -2.0), np.full(d, 3.0)
    x = rng.uniform(lb, ub, (n, d))
    if kind == "same":
        x[:] = x[0]
    if kind == "dups":
        x[: n // 2 + 1] = x[0]
    if kind == "corner":
        x = np.where(rng.random((n, d)) < 0.5, lb, ub)
    if kind == "fortran":
        x = np.asfortranarray(x)
    if kind == "wide" and not c["bounds"]:
        return x * 10.0 ** int(rng.integers(2, 8))
    x = np.clip(x, lb, ub)
    if kind == "int":
        y = np.clip(np.round(x), np.ceil(lb), np.floor(ub))
        if np.all(y >= lb) and np.all(y <= ub):
            x = y.astype(int)
    return x


def make_bounds(c):
    if not c["bounds"]:
        return None
    lb, ub = c["bounds"]
    how = c["bounds_as"]
    if how == "ints" and all(float(v).is_integer() for v in lb + ub):
        return (np.array(lb).astype(int), np.array(ub).astype(int))
    if how == "list":
        return (list(lb), list(ub))
    if how == "listoflists":
        if all(float(v).is_integer() for v in lb + ub):
            return [[int(v) for v in lb], [int(v) for v in ub]]
        return [list(lb), list(ub)]
    if how == "listofarrays":
        return [np.array(lb), np.array(ub)]
    return (np.array(lb), np.array(ub))


def make_clamp(c):
    if c["clamp"] is None:
        return None
    lo, hi = c["clamp"]
    if isinstance(lo, list):
        return (np.array(lo), np.array(hi))
    return (lo, hi)


class RecTopo:
    """Mixin for user-supplied topologies: records what compute_gbest saw and returned."""

    def compute_gbest(self, swarm, *a, **k):
        pos, pc = swarm.position, swarm.pbest_cost
        out = super().compute_gbest(swarm, *a, **k)
        nb = self.neighbor_idx
        self.log.append({
            "position": np.array(pos, copy=True), "pbest_cost": np.array(pc, copy=True),
            "pbest_pos": np.array(swarm.pbest_pos, copy=True),
            "best_pos": np.array(out[0], copy=True), "best_cost": out[1],
            "neigh": None if nb is None else [np.array(r, copy=True).ravel() for r in nb],
        })
        return out


_rec_classes = {}


def rec_topology(name, static):
    base = TOPO[name]
    if base not in _rec_classes:
        _rec_classes[base] = type("Rec" + base.__name__, (RecTopo, base), {})
    t = _rec_classes[base](**({"static": True} if static else {}))  # dynamic by default
    t.log = []
    return t


class Built:
    pass


def build(c, seed, record_topo=True):
    b = Built()
    b.conf = c
    b.options = dict(c["options"])
    b.bounds = make_bounds(c)
    b.clamp = make_clamp(c)
    b.init = make_init(c, seed)
    b.keep = copy.deepcopy((b.options, b.bounds, b.clamp, b.init))
    kw = dict(n_particles=c["n"], dimensions=c["d"], options=b.options)
    if c["ftol"] is not None:
        kw["ftol"] = c["ftol"]
        if c["ftol_iter"] != 1 or seed % 2:  # 1 is the default
            kw["ftol_iter"] = c["ftol_iter"]
    if b.init is not None:
        kw["init_pos"] = b.init
    if b.clamp is not None:
        kw["velocity_clamp"] = b.clamp
    if c["vh"] != "unmodified":
        kw["vh_strategy"] = c["vh"]
    b.top = None
    if c["opt"] == "binary":
        b.opt = ps.discrete.BinaryPSO(**kw)
    else:
        if b.bounds is not None:
            kw["bounds"] = b.bounds
        if c["bh"] and (c["bh"] != "periodic" or seed % 2):
            kw["bh_strategy"] = c["bh"]
        if c["oh"] is not None:
            kw["oh_strategy"] = dict(c["oh"])
        if c["center"] != 1.0:
            kw["center"] = c["center"]
        if c["opt"] == "gbest":
            b.opt = ps.single.GlobalBestPSO(**kw)
        elif c["opt"] == "lbest":
            b.opt = ps.single.LocalBestPSO(**dict(kw, static=True) if c["static"] else kw)
        else:
            if record_topo:
                b.top = rec_topology(c["topo"], c["static"])
            else:
                b.top = TOPO[c["topo"]](static=True) if c["static"] else TOPO[c["topo"]]()
            b.opt = ps.single.GeneralOptimizerPSO(topology=b.top, **kw)
    return b


class Trace:
    """One optimize() call as observed from outside."""


def do_call(b, call, seed, limit=None, hook=None, verbose=None):
    opt, c = b.opt, b.conf
    tr = Trace()
    tr.call, tr.conf = call, c
    tr.h0 = [len(getattr(opt, h)) for h in HIST]
    fn = make_fn(call["obj"], c["n"], seed)
    rec = Rec(fn, call.get("ret", "plain"), limit if limit is not None else call["iters"] + 3, opt, hook)
    tr.rec = rec
    tr.top0 = len(b.top.log) if b.top is not None and hasattr(b.top, "log") else 0
    tr.error = None
    tr.result = None
    v = c["verbose"] if verbose is None else verbose
    tr.kwargs = dict(call["kwargs"])
    try:
        how = {} if v and call["iters"] % 2 else {"verbose": v}  # True is the default
        tr.result = opt.optimize(rec, call["iters"], **how, **tr.kwargs)
    except Stop as e:
        tr.error = e
    tr.h1 = [len(getattr(opt, h)) for h in HIST]
    tr.X = [k.x for k in rec.calls]
    tr.C = [k.y for k in rec.calls if k.y is not None]
    tr.hist = {h: list(getattr(opt, h)[tr.h0[i]:]) for i, h in enumerate(HIST)}
    tr.V = [np.array(v, copy=True) for v in tr.hist["velocity_history"]]
    tr.P = [np.array(v, copy=True) for v in tr.hist["pos_history"]]
    tr.toplog = b.top.log[tr.top0:] if b.top is not None and hasattr(b.top, "log") else None
    tr.swarm = {k: copy.deepcopy(getattr(opt.swarm, k)) for k in
                ("position", "velocity", "options", "pbest_pos", "best_pos", "pbest_cost", "best_cost")}
    return tr


def session(spec, rng):
    """conf + list of calls from a spec {conf, calls}."""
    return spec["conf"], spec["calls"]
