"""Statistical monitors. Every verdict is made at p < 1e-9 or beyond 6.5 standard errors, and
samples are large, so that the chance of an alarm on correct code is below 1e-8 per test."""
import numpy as np
from scipy import stats

P = 1e-10


def uniform(u, mon, what, **info):
    """u: sample claimed to be U[0,1] (NaN entries are missing)."""
    u = np.asarray(u, float).ravel()
    u = u[~np.isnan(u)]
    m = u.size
    mon.count("uniformity_samples", m)
    if m == 0:
        return
    ok = bool(((u >= 0) & (u <= 1)).all())
    mon.check(ok, what + ": values leave [0, 1]", lo=u.min(), hi=u.max(), info=info)
    if m >= 30:
        p = stats.kstest(u, "uniform").pvalue
        mon.check(p > P, what + ": not uniform", p=p, mean=u.mean(), size=m, info=info)
        z = abs(u.mean() - 0.5) / np.sqrt(1 / 12 / m)
        mon.check(z < 6.8, what + ": mean is off", mean=u.mean(), z=z, size=m, info=info)
        if m > 100:
            mon.check(u.min() < 25.0 / m and u.max() > 1 - 25.0 / m, what + ": the ends of [0, 1] are never reached",
                      lo=u.min(), hi=u.max(), info=info)


def uncorrelated(a, b, mon, what, **info):
    a, b = np.asarray(a, float).ravel(), np.asarray(b, float).ravel()
    ok = ~(np.isnan(a) | np.isnan(b))
    a, b = a[ok], b[ok]
    m = a.size
    if m < 60:
        return
    mon.count("independence_pairs", m)
    mon.check(np.mean(np.abs(a - b) < 1e-7) < 0.02 + 6 / np.sqrt(m), what + ": equal values", info=info)
    if a.std() == 0 or b.std() == 0:
        return
    r = np.corrcoef(a, b)[0, 1]
    mon.check(abs(r) < 7.0 / np.sqrt(m), what + ": correlated", r=r, size=m, info=info)


def unrelated(U, mon, what):
    """Within one step, and between consecutive steps, the factors of different particles are
    neither copies of one another nor mirrored (u and 1 - u): fewer than one value in a hundred."""
    U = np.asarray(U, float)
    for name, X in (("equal", U), ("mirrored", None)):
        hits = total = 0
        for t in range(U.shape[0]):
            for a in (U[t].ravel(), U[t:t + 2].ravel()):
                a = a[~np.isnan(a)]
                b = a if X is not None else np.concatenate([a, 1 - a])
                if b.size < 2:
                    continue
                b = np.sort(b)
                hits += int((np.diff(b) < 1e-11).sum())
                total += a.size
        mon.count("relation_values", total)
        if total >= 300:
            mon.check(hits < 0.01 * total, what + ": %s values across particles" % name, hits=hits, size=total)


def contingency(a, b, mon, what, **info):
    """For pairs that do not share members (every value is used in at most two pairs)."""
    a, b = np.asarray(a, float).ravel(), np.asarray(b, float).ravel()
    ok = ~(np.isnan(a) | np.isnan(b))
    a, b = a[ok], b[ok]
    m = a.size
    if m < 400:
        return
    h, _, _ = np.histogram2d(a, b, bins=4, range=[[0, 1], [0, 1]])
    e = m / 16.0
    chi = ((h - e) ** 2 / e).sum()
    mon.check(chi < 150, what + ": dependent (contingency table)", chi=chi, size=m, info=info)


def spread(U, axis, mon, what):
    """Means along one axis vary as the means of independent uniforms do."""
    k = (~np.isnan(U)).sum(axis=axis)
    with np.errstate(all="ignore"):
        s = np.nansum(U - 0.5, axis=axis)
    use = k > 1
    if use.sum() < 20:
        return
    q = (s[use] ** 2 / (k[use] / 12.0))
    z = (q.mean() - 1) / np.sqrt(2.0 / q.size)
    mon.check(abs(z) < 9, what if z > 0 else what + " (in opposite directions)", z=z, groups=int(use.sum()))
    mon.count("spread_groups", int(use.sum()))


def matrix_independent(U, mon, what, **info):
    """U: (T, n, d) sample of U[0,1]; uniformity and pairwise independence along all axes."""
    U = np.asarray(U, float)
    T, n, d = U.shape
    uniform(U, mon, what, **info)
    unrelated(U, mon, what)
    if n > 1:
        uncorrelated(U[:, :-1], U[:, 1:], mon, what + " (neighbouring particles)", **info)
        contingency(U[:, 0:n - n % 2:2], U[:, 1:n - n % 2:2], mon, what + " (neighbouring particles)", **info)
        spread(U, 1, mon, what + ": particles move together")
    if d > 1:
        uncorrelated(U[:, :, :-1], U[:, :, 1:], mon, what + " (neighbouring dimensions)", **info)
        contingency(U[:, :, 0:d - d % 2:2], U[:, :, 1:d - d % 2:2], mon, what + " (neighbouring dimensions)", **info)
        spread(U, 2, mon, what + ": dimensions move together")
    if T > 1:
        uncorrelated(U[:-1], U[1:], mon, what + " (consecutive draws)", **info)
        contingency(U[0:T - T % 2:2], U[1:T - T % 2:2], mon, what + " (consecutive draws)", **info)
        spread(U, 0, mon, what + ": draws repeat over time")
    v = np.sort(U[~np.isnan(U)].ravel())
    dup = int((np.diff(v) == 0).sum())
    # values are recovered with rounding, so exact repeats among independent doubles are rare
    mon.check(dup <= 3 + 0.02 * v.size, what + ": repeated values", dups=dup, size=v.size, info=info)


def bernoulli(bits, p, mon, what, **info):
    """bits with success probabilities p (arrays of equal size)."""
    bits, p = np.asarray(bits, float).ravel(), np.asarray(p, float).ravel()
    m = bits.size
    mon.count("bernoulli_samples", m)
    var = (p * (1 - p)).sum()
    if var > 25:
        z = (bits - p).sum() / np.sqrt(var)
        mon.check(abs(z) < 7.0, what + ": frequency of ones is off", z=z, size=m, ones=bits.sum(), expected=p.sum(), info=info)
    impossible = ((p < 1e-18) & (bits == 1)) | ((p == 1.0) & (bits == 0))
    mon.check(not impossible.any(), what + ": a bit with (nearly) no chance occurred", info=info)
