"""Online/offline monitors over one observed optimize() call (mon.work.Trace)."""
import numpy as np

from . import oracle as O


def np2(a):
    return np.asarray(a, dtype=float)


# ---------------------------------------------------------------- C01
def soundness(tr, opt, mon):
    n, d = tr.conf["n"], tr.conf["d"]
    if tr.error is not None:
        mon.fail("objective called after the requested iterations", error=repr(tr.error))
        return
    cost, pos = tr.result
    C = np.array([y for y in tr.C])
    X = np.array(tr.X)
    mon.count("evaluated_positions", C.size)
    valid = ~np.isnan(C)
    best = C[valid].min() if valid.any() else np.inf
    mon.check(np.ndim(cost) == 0 and float(cost) == best,
              "returned cost is not the smallest cost the objective produced", cost=cost, smallest=best)
    mon.check(np.shape(pos) == (d,), "returned position has shape %s" % (np.shape(pos),), shape=np.shape(pos))
    if best < np.inf:
        hit = (C == best)
        rows = X[hit]
        if np.shape(pos) == (d,):
            mon.check(bool((rows == np2(pos)).all(axis=1).any()),
                      "returned position was not evaluated with the returned cost",
                      position=pos, cost=cost, best_positions=rows[:3])
        mon.count("ties_at_best", int(hit.sum() > 1))
    ch = tr.hist["cost_history"]
    if mon.check(len(ch) > 0, "no cost history entry"):
        mon.check(float(ch[-1]) == float(cost), "last cost history entry differs from the returned cost", last=ch[-1], cost=cost)
    if np.isnan(C).any():
        mon.count("runs_with_nan")
    if np.isinf(C).any():
        mon.count("runs_with_inf")


# ---------------------------------------------------------------- C02
def history_values(tr, mon):
    """cost, mean personal best and neighbourhood histories hold exactly the documented values."""
    n = tr.conf["n"]
    run = O.running(tr.C, n)
    ch, mp, mn = (tr.hist[k] for k in ("cost_history", "mean_pbest_history", "mean_neighbor_history"))
    T = len(tr.C)
    if not mon.check(len(ch) == T and len(mp) == T and len(mn) == T, "history lengths differ from the number of evaluations",
                     lens=(len(ch), len(mp), len(mn)), T=T):
        return None
    prev = np.inf
    for t in range(T):
        pc = run[t][0]
        b = pc.min()
        mon.check(float(ch[t]) == b, "cost history entry is not the best cost so far", t=t, got=ch[t], want=b)
        mon.check(float(ch[t]) <= prev, "cost history increases", t=t, got=ch[t], prev=prev)
        prev = float(ch[t])
        with np.errstate(all="ignore"):
            m = np.mean(pc)
        mon.check(O.close(mp[t], m, 1e-9, 1e-12 * float(np.abs(pc[np.isfinite(pc)]).max(initial=0.0))),
                  "mean personal best history is not the mean of the personal bests", t=t, got=mp[t], want=m)
        mon.check(float(mn[t]) == b, "neighbourhood history is not the best cost", t=t, got=mn[t], want=b)
        mon.count("iterations")
        if t and b < run[t - 1][0].min():
            mon.count("improvements")
    return run


def bookkeeping(tr, opt, mon):
    n = tr.conf["n"]
    run = history_values(tr, mon)
    if run is None:
        return
    pc, when = run[-1]
    sw = opt.swarm
    mon.check(np.array_equal(np2(sw.pbest_cost), pc), "personal best costs differ from each particle's smallest cost",
              got=sw.pbest_cost, want=pc)
    ok = when >= 0
    want = np.array([tr.X[when[i]][i] if when[i] >= 0 else np2(sw.pbest_pos)[i] for i in range(n)])
    mon.check(np.array_equal(np2(sw.pbest_pos), np2(want)), "personal best positions are not those of the smallest costs",
              got=sw.pbest_pos, want=want)
    mon.check(float(sw.best_cost) == pc.min(), "swarm best cost is not the minimum of the personal bests", got=sw.best_cost)
    mon.count("particles_with_result", int(ok.sum()))


# ---------------------------------------------------------------- C03
def protocol(tr, opt, mon, expect_iters=None):
    n, d = tr.conf["n"], tr.conf["d"]
    T = len(tr.X)
    if tr.error is not None:
        mon.fail("the objective was called more often than there are iterations", calls=T, iters=tr.call["iters"])
        return
    lens = [b - a for a, b in zip(tr.h0, tr.h1)]
    mon.check(all(x == T for x in lens), "number of objective calls differs from the number of history entries", calls=T, entries=lens)
    if expect_iters is not None:
        mon.check(T == expect_iters, "number of iterations is wrong", got=T, want=expect_iters)
    for k in tr.rec.calls:
        mon.check(isinstance(k.x_ref, np.ndarray) and k.x_ref.shape == (n, d), "objective did not get the full position matrix",
                  shape=np.shape(k.x_ref), type=type(k.x_ref))
        # values that can be told from their copies must be the user's own objects
        same = set(k.kw) == set(tr.kwargs) and all(k.kw[q] is tr.kwargs[q] or (isinstance(k.kw[q], (str, bytes, int, float, complex, tuple, type(None))) and k.kw[q] == tr.kwargs[q]) for q in k.kw)
        mon.check(same, "objective got other keyword arguments than the user passed", got=k.kw, want=tr.kwargs)
        if k.hlen is not None:
            mon.check(all(h - a == k.t for h, a in zip(k.hlen, tr.h0)),
                      "at an evaluation the histories do not hold exactly the finished iterations", t=k.t, lens=k.hlen, start=tr.h0)
    for t in range(min(T, len(tr.P))):
        mon.check(np.array_equal(tr.X[t], tr.P[t]), "the evaluated matrix is not the current position matrix of that iteration", t=t)
        have, rec = tr.rec.calls[t].x_ref, tr.hist["pos_history"][t]
        mon.check(getattr(have, "dtype", None) == getattr(rec, "dtype", None), "the evaluated matrix has another number type than the positions of that iteration", t=t,
                  evaluated=getattr(have, "dtype", None), recorded=getattr(rec, "dtype", None))
    mon.count("evaluations", T)


# ---------------------------------------------------------------- C04
def histories(tr, opt, mon):
    n, d = tr.conf["n"], tr.conf["d"]
    T = len(tr.X)
    for name in ("pos_history", "velocity_history"):
        h = tr.hist[name]
        if not mon.check(len(h) == T, "%s has a wrong number of entries" % name, got=len(h), want=T):
            return
        for e in h:
            mon.check(np.shape(e) == (n, d), "%s entry has shape %s" % (name, np.shape(e)))
    for k in ("cost_history", "mean_pbest_history", "mean_neighbor_history"):
        mon.check(len(tr.hist[k]) == T, "%s has a wrong number of entries" % k, got=len(tr.hist[k]), want=T)
    for t in range(T):
        mon.check(np.array_equal(tr.P[t], tr.X[t]), "position history entry differs from the evaluated positions", t=t,
                  evaluated=tr.X[t][:2], recorded=tr.P[t][:2])
        mon.count("snapshots")
    for k in tr.rec.calls:
        mon.check(np.array_equal(k.x_ref, k.x), "the matrix handed to the objective was modified afterwards", t=k.t)


# ---------------------------------------------------------------- C05
def containment(tr, b, mon, scaled=False):
    c = tr.conf
    if not c["bounds"]:
        return
    lb, ub = np.array(c["bounds"][0]), np.array(c["bounds"][1])
    if c["bounds_as"] == "ints":
        pass
    for t, x in enumerate(tr.X):
        o = O.outside(x, lb, ub)
        mon.check(not o.any(), "evaluated position outside of the bounds", t=t,
                  where=np.argwhere(o)[:3].tolist(), value=x[o][:3], lb=lb, ub=ub, bh=c["bh"])
        mon.count("coordinates", x.size)
    for t, x in enumerate(tr.P):
        o = O.outside(x, lb, ub)
        mon.check(not o.any(), "recorded position outside of the bounds", t=t, value=x[o][:3], bh=c["bh"])
    x = np2(b.opt.swarm.position)
    o = O.outside(x, lb, ub)
    mon.check(not o.any(), "current swarm position outside of the bounds", value=x[o][:3], bh=c["bh"])
    if tr.result is not None:
        mon.check(not O.outside(tr.result[1], lb, ub).any(), "returned position outside of the bounds", pos=tr.result[1])
    for a, v, y in zip(tr.P, tr.V[1:], tr.P[1:]):
        mon.count("overshooting_coordinates", int(O.outside(np2(a) + v, lb, ub).sum()))


# ---------------------------------------------------------------- C07 on runs
def clamped(tr, mon):
    c = tr.conf
    if c["clamp"] is None:
        return
    lo, hi = (np.asarray(v, float) for v in c["clamp"])
    for t, v in enumerate(tr.V):
        o = O.outside(v, lo, hi)
        mon.check(not o.any(), "recorded velocity outside of the clamp", t=t, value=v[o][:3], clamp=c["clamp"], vh=c["vh"])
        mon.count("velocities", v.size)
        mon.count("at_limit", int(((v == lo) | (v == hi)).sum()))


# ---------------------------------------------------------------- C08
def attractor_sets(c, tr, t, pc, static_x):
    """Per particle candidate attractor indices at iteration t; None if unknown."""
    n = c["n"]
    X = tr.P[t]
    o = c["options"]
    full = np.ones((n, n), bool)
    if c["opt"] == "gbest" or c["topo"] == "star":
        return O.attractors(full, full, pc)
    if c["opt"] in ("lbest", "binary") or c["topo"] in ("ring", "vonneumann"):
        stat = c["static"] if (c["opt"] == "lbest" or c["topo"] == "ring") else c["topo"] == "vonneumann"
        if c["opt"] == "binary":
            stat = False
        if c["topo"] == "vonneumann":
            from .work import delannoy

            k = delannoy(c["d"], o["r"])
        else:
            k = o["k"]
        ref = static_x if stat else X
        sure, maybe = O.knn(ref, k, o["p"])
        if k == 1:
            sure = maybe = np.eye(n, dtype=bool)
        return O.attractors(sure, maybe, pc)
    if tr.toplog is not None and t < len(tr.toplog) and tr.toplog[t]["neigh"] is not None:
        nb = tr.toplog[t]["neigh"]
        m = np.zeros((n, n), bool)
        for i, r in enumerate(nb):
            m[i, r.astype(int)] = True
        return O.attractors(m, m, pc)
    return None


class Drift:
    """Given the past, a move is w*v + c1*r1*a + c2*r2*g with mean (c1*a + c2*g)/2 beyond the inertia
    and variance ((c1*a)^2 + (c2*g)^2)/12. Standardized residuals, signed towards either
    attractor, add up to a martingale; judged separately by the size of the pull."""

    def __init__(self):
        self.rows = []

    def add(self, pull, a, g, scale):
        sd = np.sqrt((a * a + g * g) / 12.0)
        with np.errstate(all="ignore"):
            ok = np.isfinite(pull) & np.isfinite(sd) & (sd > 1e-6 * scale) & (sd > 1e-150) & (sd < 1e150)
            z = (pull - (a + g) / 2) / sd
        if ok.any():
            self.rows.append(np.stack([z[ok], np.sign(a[ok]), np.sign(g[ok]), np.floor(np.log10(sd[ok]) / 2)]))

    def verdict(self, mon):
        if not self.rows:
            return
        z, sa, sg, size = np.concatenate(self.rows, axis=1)
        mon.count("judged_pulls", z.size)
        for name, s in (("own best", sa), ("neighbourhood best", sg)):
            for m in [np.ones(z.size, bool)] + [size == q for q in np.unique(size)]:
                m = m & (s != 0)
                if m.sum() >= 64:
                    q = abs((z * s)[m].sum()) / np.sqrt(m.sum())
                    mon.check(q < 8, "the average pull towards the %s is not half of its coefficient times the distance" % name, z=q, moves=int(m.sum()),
                              mean=(z * s)[m].mean(), size=size[m][0])


def interval(coef, a):
    """Elementwise interval of coef*r*a for r in [0,1] and coef in [c0,c1]."""
    v = np.stack([np.zeros_like(a), coef[0] * a, coef[1] * a])
    return v.min(axis=0), v.max(axis=0)


def motion(tr, b, mon, static_x, strict_position=True):
    """Velocity and position law between consecutive history entries of one call."""
    c = tr.conf
    n, d = c["n"], c["d"]
    T = len(tr.P)
    run = O.running(tr.C, n)
    P, V = tr.P, tr.V
    lo_c = hi_c = None
    if c["clamp"] is not None:
        lo_c, hi_c = (np.asarray(v, float) for v in c["clamp"])
    lagged = False
    if c["vh"] == "adjust" and T > 1:
        # the recorded finding: the handler sees the current position twice, so the velocity is
        # the previous displacement (zero at first) and neither attractor has any influence
        lagged = True
        for t in range(T - 1):
            v = np2(P[t]) - np2(P[t - 1]) if t else np.zeros((n, d))
            v = v if lo_c is None else np.clip(v, lo_c, hi_c)
            lagged &= bool(np.allclose(V[t + 1], v, rtol=1e-12, atol=1e-12 * np.abs(np2(P[t])).max()))
        mon.check(not lagged, "vh_strategy='adjust': velocities ignore the velocity equation", key="adjust-freezes-swarm")
    init_pb = np2(P[0])
    drift = Drift()
    for t in range(T - 1):
        pc, when = run[t]
        if (when < 0).any() and t == 0 and tr.h0[0] > 0:
            pass
        pb = np.array([P[when[i]][i] if when[i] >= 0 else (b.stale_pb[i] if getattr(b, "stale_pb", None) is not None else init_pb[i]) for i in range(n)], dtype=float)
        x, v = np2(P[t]), V[t]
        cand = attractor_sets(c, tr, t, pc, static_x)
        oi = O.options_at(c["options"], c["oh"], t, tr.call["iters"])
        w, c1, c2 = oi["w"], oi["c1"], oi["c2"]
        base = np.stack([w[0] * v, w[1] * v])
        a = pb - x
        l1, h1 = interval(c1, a)
        lo0, hi0 = base.min(axis=0) + l1, base.max(axis=0) + h1
        got = V[t + 1]
        any_idx = [None] * n
        for i in range(0 if lagged else n):
            js = cand[i] if cand is not None else list(range(n))
            ok = False
            # identical candidate positions need to be tried once
            tried = set()
            for j in js:
                keyj = pb[j].tobytes()
                if keyj in tried:
                    continue
                tried.add(keyj)
                g = pb[j] - x[i]
                l2, h2 = interval(c2, g)
                L, H = lo0[i] + l2, hi0[i] + h2
                tol = 1e-9 * (np.abs(base[:, i]).max(axis=0) + np.abs(l1[i]) + np.abs(h1[i]) + np.abs(l2) + np.abs(h2)) \
                    + 1e-12 * (abs(c1[0]) + abs(c1[1]) + abs(c2[0]) + abs(c2[1])) * np.abs(x[i]) + 1e-300
                if lo_c is not None:
                    Lc, Hc = np.clip(L - tol, lo_c, hi_c), np.clip(H + tol, lo_c, hi_c)
                else:
                    Lc, Hc = L - tol, H + tol
                if ((got[i] >= Lc) & (got[i] <= Hc)).all():
                    ok = True
                    break
            mon.count("particle_moves")
            mon.count("candidate_attractors", len(js))
            if lo_c is None and len({pb[j].tobytes() for j in js} if len(tried) == 1 else tried) == 1 \
                    and w[0] == w[1] and c1[0] == c1[1] and c2[0] == c2[1]:
                drift.add(got[i] - w[0] * v[i], c1[0] * a[i], c2[0] * g, np.abs(w[0] * v[i]) + (abs(c1[0]) + abs(c2[0])) * np.abs(x[i]))
            if not mon.check(ok, "velocity does not follow the velocity equation", t=t, particle=i, v_new=got[i], v_old=v[i],
                             x=x[i], pbest=pb[i], attractors=[pb[j] for j in js[:3]], coeff=oi, clamp=c["clamp"]):
                return
        y = x + got
        z = np2(P[t + 1])
        if t in getattr(tr, "skip_position", ()):
            pass
        elif c["opt"] == "binary":
            mon.check(bool(np.isin(z, (0.0, 1.0)).all()), "binary position is not 0/1", t=t)
        elif not c["bounds"]:
            tol = 4 * O.EPS * (np.abs(x) + np.abs(got))
            mon.check(bool((np.abs(z - y) <= tol).all()), "new position is not old position plus new velocity", t=t,
                      diff=np.abs(z - y).max())
        else:
            lb, ub = (np.asarray(q, float) for q in c["bounds"])
            msg = repaired(c["bh"], x, got, z, lb, ub)
            mon.check(msg is None, "new position is not old position plus velocity, repaired by %s" % c["bh"], t=t, why=msg)
            mon.count("repaired_particles", int(O.outside(y, lb, ub).any(axis=1).sum()))
        mon.count("steps")
    drift.verdict(mon)
    if T:
        b.stale_pb = np.array([P[run[-1][1][i]][i] if run[-1][1][i] >= 0 else
                               (b.stale_pb[i] if getattr(b, "stale_pb", None) is not None else init_pb[i]) for i in range(n)], dtype=float)


def repaired(bh, x, v, z, lb, ub):
    """x + v repaired by bh (previous positions x) gives z? One ulp of slack in x + v."""
    y = x + v
    msg = O.bh_compare(bh, y, z, lb, ub, x)
    if msg is None:
        return None
    # the sum may be rounded differently right at a bound
    for other in (np.nextafter(y, np.inf), np.nextafter(y, -np.inf)):
        near = (np.abs(y - lb) <= 4 * O.EPS * (np.abs(x) + np.abs(v))) | (np.abs(y - ub) <= 4 * O.EPS * (np.abs(x) + np.abs(v)))
        yy = np.where(near, other, y)
        if O.bh_compare(bh, yy, z, lb, ub, x) is None:
            return None
    return msg


class Frozen:
    """Keeps every history entry (the object and a private copy) from the moment it can
    first be seen, and checks that neither the lists nor the objects change later (C04)."""

    NAMES = ("pos_history", "velocity_history", "cost_history", "mean_pbest_history", "mean_neighbor_history")

    def __init__(self, opt):
        self.opt = opt
        self.seen = {k: [] for k in self.NAMES}
        self.old = []

    def update(self, *_):
        for k, lst in self.seen.items():
            h = getattr(self.opt, k)
            while len(lst) < len(h):
                e = h[len(lst)]
                lst.append((e, np.array(e, copy=True)))

    def after_reset(self):
        for k, lst in self.seen.items():
            self.old += [(k, e) for e in lst]
        self.seen = {k: [] for k in self.NAMES}

    def verify(self, mon):
        for k, lst in self.seen.items():
            h = getattr(self.opt, k)
            if not mon.check(len(h) >= len(lst), "%s lost entries" % k, got=len(h), had=len(lst)):
                continue
            for t, (ref, e) in enumerate(lst):
                mon.check(np.array_equal(np.asarray(h[t]), e, equal_nan=True), "recorded %s entry changed later" % k, t=t)
                mon.count("reverified_entries")
        for k, (ref, e) in [(k, x) for k, lst in self.seen.items() for x in lst] + self.old:
            mon.check(np.array_equal(np.asarray(ref), e, equal_nan=True), "an entry taken from %s changed later" % k)
