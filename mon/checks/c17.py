"""C17: BinaryPSO. Monitors: bit range and Bernoulli law over recorded runs, neighbourhoods by
interval arithmetic on the velocity law, clamp."""
import numpy as np

import pyswarms as ps

from .. import monitors as M
from .. import oracle as O
from .. import sessions as S
from .. import stats
from .. import work as W


def cases(tier, seed):
    rng = S.rng_for("C17", seed, tier)
    q = 2 if tier == "quick" else 20
    for r in range(3 * q):
        for clamp in (None, [-1.0, 1.0], [-4.0, 0.5], [0.0, 0.2], [2.0, 6.0], [-6.0, -2.0], [-0.01, 0.01]):
            for n, d in ((12, 10), (40, 3), (3, 60)):
                yield {"kind": "law", "clamp": clamp, "n": n, "d": d, "T": 160}
        yield {"kind": "direct", "rep": r}
        yield {"kind": "saturate", "rep": r}
        if r % 3 == 0:
            yield {"kind": "tails", "rep": r}
    for s in S.extremes(tier):
        if s["conf"]["opt"] == "binary":
            yield dict(s, kind="session")
            yield dict(s, kind="session", conf=dict(s["conf"], clamp=[-3.0, 2.0]))
    for i in range(900 * q):
        s = S.gen_session(rng, opt="binary", max_iters=40)
        s["kind"] = "session"
        yield s
    for i in range(60 * q):
        c = W.gen_conf(rng, opt="binary", n=W.pick(rng, [3, 5, 8]))
        yield {"kind": "parallel", "conf": c, "procs": int(rng.integers(1, 4)), "seed": i}


def run(spec, mon):
    return globals()["k_" + spec["kind"]](spec, mon)


def sigmoid(v):
    with np.errstate(all="ignore"):
        return np.where(v >= 0, 1 / (1 + np.exp(-v)), np.exp(v) / (1 + np.exp(v)))


def independent(B, Pr, mon, what):
    """Standardised residuals of Bernoulli bits (T, n, d) are uncorrelated along every axis."""
    ok = (Pr > 0.01) & (Pr < 0.99)
    R = np.where(ok, (B - Pr) / np.sqrt(np.where(ok, Pr * (1 - Pr), 1)), np.nan)
    T, n, d = R.shape
    pairs = [("consecutive iterations", R[:-1], R[1:])]
    if n > 1:
        pairs.append(("neighbouring particles", R[:, :-1], R[:, 1:]))
    if d > 1:
        pairs.append(("neighbouring dimensions", R[:, :, :-1], R[:, :, 1:]))
    for name, a, b in pairs:
        m = ~(np.isnan(a) | np.isnan(b))
        k = int(m.sum())
        if k < 200:
            continue
        # residuals are bounded by 10, so the sum of products is well approximated by a normal
        s = (a[m] * b[m])
        z = s.sum() / np.sqrt(max((s ** 2).sum(), k))
        mon.check(abs(z) < 7.5, what + ": bits of %s depend on each other" % name, z=z, pairs=k)
        mon.count("independence_pairs", k)
    for axis, name in ((1, "particles"), (2, "dimensions"), (0, "iterations")):
        k = (~np.isnan(R)).sum(axis=axis)
        s = np.nansum(R, axis=axis)
        use = k >= 3
        if use.sum() < 50:
            continue
        qv = s[use] ** 2 / k[use]
        z = (qv.mean() - 1) / (qv.std() / np.sqrt(qv.size) + np.sqrt(2.0 / qv.size))
        mon.check(z < 8, what + ": bits of all %s move together" % name, z=z, groups=int(use.sum()))


def judge_bits(trs, mon, what):
    """bits of the iterations t+1 against velocities of t+1."""
    trs = [(v, p) for v, p in trs if len(v) > 1]
    if not trs:
        return
    V = np.concatenate([np.array(v[1:]) for v, _ in trs])
    B = np.concatenate([np.array(p[1:], float) for _, p in trs])
    Pr = sigmoid(V)
    mon.count("judged_bits", B.size)
    mon.check(bool(np.isin(B, (0.0, 1.0)).all()), what + ": positions are not zeros and ones")
    stats.bernoulli(B, Pr, mon, what)
    # in bins of the probability, so that errors of opposite sign do not cancel
    edges = np.linspace(0, 1, 11)
    for lo, hi in zip(edges, edges[1:]):
        m = (Pr >= lo) & (Pr < hi)
        k = int(m.sum())
        var = (Pr[m] * (1 - Pr[m])).sum() if k else 0
        if var > 20:
            z = (B[m] - Pr[m]).sum() / np.sqrt(var)
            mon.check(abs(z) < 7, what + ": frequency of ones differs from the sigmoid of the velocity", z=z, bits=k, between=(lo, hi),
                      observed=B[m].mean(), expected=Pr[m].mean())
            mon.count("probability_bins")
    if B.shape[0] > 20:
        independent(B, Pr, mon, what)


def k_law(spec, mon):
    n, d = spec["n"], spec["d"]
    k = min(n, 1 + spec["seed"] % 4)
    opt = ps.discrete.BinaryPSO(n, d, {"c1": 0.8, "c2": 0.6, "w": 0.9, "k": k, "p": 1 + spec["seed"] % 2},
                                velocity_clamp=None if spec["clamp"] is None else tuple(spec["clamp"]))
    seq = []
    g = np.random.default_rng(spec["seed"])
    for call in range(2):
        a = len(opt.pos_history)
        opt.optimize(lambda x: g.random(len(x)), spec["T"], verbose=False)
        seq.append(([np.array(v) for v in opt.velocity_history[a:]], [np.array(p, float) for p in opt.pos_history[a:]]))
        for p in seq[-1][1]:
            mon.check(bool(np.isin(p, (0, 1)).all()), "a binary position is not 0/1")
        if spec["clamp"]:
            for v in seq[-1][0]:
                mon.check(bool(((v >= spec["clamp"][0]) & (v <= spec["clamp"][1])).all()), "velocity leaves the clamp", clamp=spec["clamp"], lo=v.min(), hi=v.max())
    # the move from one call to the next
    judge_bits(seq, mon, "BinaryPSO")
    mon.seen("laws", (spec["clamp"], n, d))


def k_direct(spec, mon):
    """The recorded law over a wide range of velocities: no attraction, velocities stay what they were."""
    n, d = 60, 40
    lo = np.linspace(-7, 6, d)
    for clampwidth in (1e-9, 1.0):
        opt = ps.discrete.BinaryPSO(n, d, {"c1": 0.0, "c2": 0.0, "w": 1.0, "k": 2, "p": 2}, velocity_clamp=(lo, lo + clampwidth))
        opt.optimize(lambda x: x.sum(axis=1), 60, verbose=False)
        V, B = [np.array(v) for v in opt.velocity_history], [np.array(p, float) for p in opt.pos_history]
        judge_bits([(V, B)], mon, "BinaryPSO with constant velocities")


def k_tails(spec, mon):
    """Rare bits: millions of draws at constant velocities far out, judged per velocity."""
    vs = np.concatenate([np.linspace(-9, -3, 13), np.linspace(3, 9, 13), [-0.01, 0.0, 0.01, -1.0, 1.0]])
    rep, n = 300, 30
    lo = np.repeat(vs, rep)
    opt = ps.discrete.BinaryPSO(n, lo.size, {"c1": 0.0, "c2": 0.0, "w": 1.0, "k": 1, "p": 2}, velocity_clamp=(lo, np.nextafter(lo, np.inf)))
    opt.optimize(lambda x: x.sum(axis=1), 30, verbose=False)
    ones = np.zeros(vs.size)
    for p in opt.pos_history[1:]:
        ones += np.asarray(p, float).sum(axis=0).reshape(vs.size, rep).sum(axis=1)
    m = n * rep * (len(opt.pos_history) - 1)
    pr = sigmoid(vs)
    for v, k, p in zip(vs, ones, pr):
        var = m * p * (1 - p)
        if var > 20:
            z = (k - m * p) / np.sqrt(var)
            mon.check(abs(z) < 7.5, "frequency of ones differs from the sigmoid of the velocity", velocity=v, ones=k, expected=m * p, bits=m, z=z)
            mon.count("tail_velocities")
    mon.count("tail_bits", m * vs.size)


def k_saturate(spec, mon):
    for v, bit in ((800.0, 1), (40.0, 1), (1e8, 1), (-45.0, 0), (-800.0, 0), (-1e8, 0)):
        opt = ps.discrete.BinaryPSO(6, 9, {"c1": 0.0, "c2": 0.0, "w": 1.0, "k": 2, "p": 2}, velocity_clamp=(v, np.nextafter(v, np.inf)))
        opt.optimize(lambda x: x.sum(axis=1), 12, verbose=False)
        for p in opt.pos_history[1:]:
            mon.check(bool((np.asarray(p) == bit).all()), "bits do not saturate for a large velocity", v=v, bits=p)
            mon.count("saturated_bits", np.size(p))


def k_session(spec, mon):
    acc = []

    def each(tr, b, m):
        if tr.error is not None:
            m.fail("objective called too often")
            return
        for x in tr.X + tr.P:
            m.check(bool(np.isin(x, (0, 1)).all()), "a binary position is not 0/1")
        r = np.asarray(tr.result[1])
        m.check(bool(np.isin(r, (0, 1)).all()), "the returned position is not binary", got=r)
        m.check(bool(np.isin(b.opt.swarm.position, (0, 1)).all()), "the current position is not binary")
        if b.conf["init"] is None:
            # bits select: features[:, bits == 1] and features[bits] style use needs whole numbers, at the start and after every move
            m.check(all(np.asarray(x).dtype.kind in "biu" for x in tr.X + tr.P + [r]), "binary positions are no whole numbers", kinds=sorted({np.asarray(x).dtype.kind for x in tr.X + tr.P + [r]}))
        M.clamped(tr, m)
        if b.conf["vh"] != "adjust":
            M.motion(tr, b, m, b.static_x)
        acc.append((tr.V, tr.P))

    S.run_session(spec, mon, each)
    judge_bits(acc, mon, "BinaryPSO session")


def k_parallel(spec, mon):
    c = spec["conf"]
    b = W.build(c, spec["seed"], record_topo=False)
    r = b.opt.optimize(W.RowObj("bits"), 6, n_processes=spec["procs"], verbose=False)
    for p in list(b.opt.pos_history) + [r[1]]:
        mon.check(bool(np.isin(p, (0, 1)).all()), "a binary position of a parallel run is not 0/1")
    mon.count("parallel_runs")
