"""Reference semantics the monitors compare observed executions with. Written from
the documentation, sharing no code with the package."""
import math

import numpy as np

EPS = 2.220446049250313e-16


# ------------------------------------------------------------------ costs

def running(C, n):
    """Per-iteration running personal bests. Returns list of (pc, first_iter, first) where
    pc[i] is particle i's smallest non-NaN cost so far and first_iter[i] when it was first reached."""
    pc = np.full(n, np.inf)
    when = np.full(n, -1)
    out = []
    for t, y in enumerate(C):
        y = np.asarray(y, dtype=float)
        better = y < pc
        pc = np.where(better, y, pc)
        when = np.where(better, t, when)
        out.append((pc.copy(), when.copy()))
    return out


def close(a, b, rel=1e-9, ab=0.0):
    a, b = float(a), float(b)
    if a == b or (math.isnan(a) and math.isnan(b)):
        return True
    if not (math.isfinite(a) and math.isfinite(b)):
        return False
    return abs(a - b) <= ab + rel * max(abs(a), abs(b))


# ------------------------------------------------------------------ boundary strategies

def bh_expect(strategy, y, lb, ub, mem):
    """Expected repair of positions y. Returns (lo, hi): elementwise admissible interval
    (equal up to rounding for deterministic strategies)."""
    y = np.asarray(y, dtype=float)
    lb = np.broadcast_to(np.asarray(lb, float), y.shape)
    ub = np.broadcast_to(np.asarray(ub, float), y.shape)
    low, high = y < lb, y > ub
    out = low | high
    rows = out.any(axis=1)
    s = ub - lb
    if strategy == "nearest" or (mem is None and strategy in ("shrink", "intermediate")):
        z = np.clip(y, lb, ub)
        return z, z, np.zeros_like(y)
    if strategy == "random":
        lo, hi = y.copy(), y.copy()
        lo[rows], hi[rows] = lb[rows], ub[rows]
        return lo, hi, np.zeros_like(y)
    if strategy == "intermediate":
        z = np.where(low, 0.5 * (mem + lb), np.where(high, 0.5 * (mem + ub), y))
        return z, z, 1e-12 * (np.abs(mem) + np.abs(lb) + np.abs(ub)) * out
    if strategy == "shrink":
        with np.errstate(all="ignore"):
            v = y - mem
            sg = np.where(low, (lb - mem) / v, np.where(high, (ub - mem) / v, 1.0))
            m = sg.min(axis=1, keepdims=True)
            z = np.where(rows[:, None], mem + m * v, y)
        tol = (1e-9 * (np.abs(mem) + np.abs(lb) + np.abs(ub) + np.abs(m * v))) * rows[:, None]
        return z, z, tol
    if strategy == "periodic":
        with np.errstate(all="ignore"):
            z = np.where(low, ub - np.mod(lb - y, s), np.where(high, lb + np.mod(y - ub, s), y))
        tol = (1e-12 * (np.abs(lb) + np.abs(ub)) + 8 * EPS * np.abs(y)) * out
        return z, z, tol
    if strategy == "reflective":
        with np.errstate(all="ignore"):
            q = np.mod(y - lb, 2 * s)
            z = np.where(out, lb + np.where(q > s, 2 * s - q, q), y)
        # repeated reflections accumulate rounding with the number of reflections
        k = np.abs(y - lb) / s
        tol = (1e-12 * (np.abs(lb) + np.abs(ub)) + 16 * EPS * np.abs(y) * (1 + np.minimum(k, 1e6))) * out
        return z, z, tol
    raise KeyError(strategy)


def bh_compare(strategy, y, got, lb, ub, mem):
    """None if `got` is an admissible repair of y, else a description."""
    got = np.asarray(got, dtype=float)
    if got.shape != np.shape(y):
        return "shape %s instead of %s" % (got.shape, np.shape(y))
    lbb = np.broadcast_to(np.asarray(lb, float), got.shape)
    ubb = np.broadcast_to(np.asarray(ub, float), got.shape)
    lo, hi, tol = bh_expect(strategy, y, lbb, ubb, mem)
    bad = ~((got >= lo - tol) & (got <= hi + tol))
    if strategy in ("periodic", "reflective"):
        # compare modulo the period: the jump (or crease) may be rounded to either side
        s = ubb - lbb
        with np.errstate(all="ignore"):
            diff = np.abs(got - lo)
            if strategy == "periodic":
                diff = np.minimum(diff, np.abs(s - diff))
        noise = tol >= 0.25 * s  # position information is lost to rounding: any point will do
        bad = ~((diff <= tol) | noise)
        exact = (np.asarray(y) >= lbb) & (np.asarray(y) <= ubb)
        bad |= exact & (got != np.asarray(y, float))
        bad &= np.isfinite(np.asarray(y, float))
    if bad.any():
        i, j = np.argwhere(bad)[0]
        return "particle %d dim %d: %r -> %r, expected %r..%r (bounds %r..%r, previous %r)" % (
            i, j, np.asarray(y)[i, j], got[i, j], lo[i, j], hi[i, j], lbb[i, j], ubb[i, j],
            None if mem is None else np.asarray(mem)[i, j])
    return None


def outside(x, lb, ub):
    x = np.asarray(x)
    return ~((x >= np.asarray(lb)) & (x <= np.asarray(ub)))


# ------------------------------------------------------------------ options schedules

def options_at(start, oh, i, n, end_opts=None, d1=0.2, d2=7, nn=1.2):
    """{name: (lo, hi)} interval of every coefficient after iteration i of n."""
    out = {}
    end_opts = end_opts or {}
    for k, s in start.items():
        st = (oh or {}).get(k)
        if st is None:
            out[k] = (s, s)
            continue
        default_end = {"w": 0.4, "c1": 0.8 * start["c1"], "c2": 1.0 * start["c2"]}
        if st == "random":
            e = end_opts.get(k, s + 1)
            out[k] = (min(s, e), max(s, e))
            continue
        e = end_opts.get(k, default_end[k])
        if st == "lin_variation":
            v = e + (s - e) * (n - i) / n
        elif st == "nonlin_mod":
            v = e + (s - e) * ((n - i) ** nn / n ** nn)
        elif st == "exp_decay":
            v = (s - e - d1) * math.exp(1 / (1 + d2 * i / n))
        else:
            raise KeyError(st)
        out[k] = (v, v)
    return out


# ------------------------------------------------------------------ neighbourhoods

def knn(X, k, p):
    """(sure, maybe): boolean matrices of neighbours that must / may be among the k nearest
    (ties and rounding make the k-th place ambiguous)."""
    X = np.asarray(X, float)
    n = len(X)
    D = np.abs(X[:, None, :] - X[None, :, :])
    if p == np.inf:
        D = D.max(axis=2)
    elif p in (1, 2):
        D = D.sum(axis=2) if p == 1 else np.sqrt((D ** 2).sum(axis=2))
    else:
        D = (D ** p).sum(axis=2) ** (1.0 / p)
    sure = np.zeros((n, n), bool)
    maybe = np.zeros((n, n), bool)
    for i in range(n):
        dk = np.sort(D[i])[k - 1]
        tol = 1e-9 * dk + 1e-300
        maybe[i] = D[i] <= dk + tol
        sure[i] = D[i] < dk - tol
        if maybe[i].sum() <= k:
            sure[i] = maybe[i]
        sure[i, i] = maybe[i, i] = True
    return sure, maybe


def attractors(sure, maybe, pc):
    """For every particle the set of particles that may be its best neighbour."""
    n = len(pc)
    res = []
    for i in range(n):
        cand = np.nonzero(maybe[i])[0]
        must = np.nonzero(sure[i])[0]
        bound = pc[must].min() if len(must) else np.inf
        if not len(must):
            bound = pc[cand].max()
        res.append([j for j in cand if pc[j] <= bound])
    return res


# ------------------------------------------------------------------ stopping rule

def stop_iteration(best, ftol, ftol_iter):
    """Index of the iteration after which the run stops, or None (best: best cost per iteration)."""
    prev = np.inf
    flags = []
    with np.errstate(all="ignore"):
        for i, b in enumerate(best):
            flags.append(bool(abs(np.float64(b) - np.float64(prev)) < ftol * (1 + abs(prev))))
            prev = b
            if i >= ftol_iter and all(flags[-ftol_iter:]):
                return i
    return None
