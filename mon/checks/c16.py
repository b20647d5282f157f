"""C16: generated swarms. Monitor: every generated matrix and every rejection against the arguments."""
import numpy as np

import pyswarms as ps
import pyswarms.backend as P
from pyswarms.backend.swarms import Swarm

from .. import core
from .. import sessions as S
from .. import stats
from .. import work as W

ULP = 4e-16
# values of binary initial positions: more than two different ones are rejected
BINIT = [[0, 1], [1], [0], [0, 1, 2], [0, 1, -1], [3, 4, 5], [0.0, 1.0], [1.0], [0, 1, 0.3, 0.9], [0.2, 0.7, 0.9], [0, 1, 1e-9], [0, 1, 1 - 1e-12],
         [0.1, 0.2, 0.3, 0.4], [-0.4, 0.0, 1.0], [0, 1, 256], [0, 1, 257, 2], [0, 1, 1e300], [0, 1, 0, 1, 0, 1, 0.5]]


def cases(tier, seed):
    rng = S.rng_for("C16", seed, tier)
    q = 5 if tier == "quick" else 50
    for i in range(700 * q):
        n, d = int(W.pick(rng, [1, 2, 3, 7, 40, 300])), int(W.pick(rng, [1, 2, 3, 8, 30]))
        b = W.gen_bounds(rng, d) if rng.random() < 0.7 else None
        c = W.gen_clamp(rng, d) if rng.random() < 0.7 else None
        yield {"kind": "free", "n": n, "d": d, "bounds": b, "as": W.pick(rng, ["tuple", "list", "listarr", "int"]),
               "center": W.pick(rng, [1.0, 1.0, 0.5, -2.0, 3, "array", 0.0]), "clamp": c}
    for i in range(500 * q):
        n, d = int(W.pick(rng, [1, 2, 3, 6])), int(W.pick(rng, [1, 2, 3, 5]))
        yield {"kind": "init", "n": n, "d": d, "bounds": W.gen_bounds(rng, d), "nobounds": bool(rng.random() < 0.25),
               "how": W.pick(rng, ["inside", "inside", "edge", "below", "above", "ulp", "shape", "nan", "inf", "ints", "fortran"]),
               "cell": [int(rng.integers(n)), int(rng.integers(d))], "side": int(rng.integers(2))}
    for i in range(200 * q):
        yield {"kind": "wrong", "n": int(rng.integers(1, 6)), "d": int(rng.integers(3, 6)), "delta": int(W.pick(rng, [-1, 1, 3])), "init": bool(rng.random() < 0.4)}
    for i in range(40 * q):
        yield {"kind": "binary", "n": int(rng.integers(1, 60)), "d": int(rng.integers(1, 30))}
        yield {"kind": "perm", "n": int(rng.integers(1, 60)), "d": int(rng.integers(1, 15))}
        yield {"kind": "binit", "n": int(rng.integers(1, 9)), "d": int(rng.integers(1, 9)), "values": W.pick(rng, BINIT), "spare": bool(rng.random() < 0.4)}
    for d in [127, 128, 129, 255, 256, 257, 300, 1000] + ([] if q == 5 else [32768, 70000]):
        yield {"kind": "perm", "n": 3, "d": d}
        yield {"kind": "binary", "n": 3, "d": d}
    for n in [255, 256, 257, 1000, 5000] + ([] if q == 5 else [70000]):
        yield {"kind": "perm", "n": n, "d": 4}
        yield {"kind": "free", "n": n, "d": 3, "bounds": [[-1.0, 2.0, -5.0], [1.0, 2.5, 100.0]], "as": "tuple", "center": 1.0, "clamp": [-0.5, 0.25]}
    for i in range(6 * q):
        yield {"kind": "permstat", "d": int(W.pick(rng, [2, 3, 4]))}
        yield {"kind": "bitstat"}
    for opt, topo in S.ALL_KINDS:
        for i in range(15 * q):
            yield {"kind": "optimizer", "conf": W.gen_conf(rng, opt=opt, topo=topo)}
            c = W.gen_conf(rng, opt=opt, topo=topo)
            if opt != "binary" and c["init"] is None:
                c["center"] = W.pick(rng, [0.5, -2.0, 3, 10.0, [float(v) for v in rng.uniform(-2, 2, c["d"])]])
            yield {"kind": "optimizer", "conf": c}


def run(spec, mon):
    return globals()["k_" + spec["kind"]](spec, mon)


def inside(x, lo, hi, slack=0.0):
    s = slack * np.maximum(np.abs(lo), np.abs(hi))
    return bool(((x >= lo - s) & (x <= hi + s)).all())


def mkbounds(b, how):
    lb, ub = np.array(b[0]), np.array(b[1])
    if how == "list":
        return (list(lb), list(ub))
    if how == "listarr":
        return [lb, ub]
    if how == "int" and all(float(v).is_integer() for v in b[0] + b[1]):
        return (lb.astype(int), ub.astype(int))
    return (lb, ub)


def k_free(spec, mon):
    n, d = spec["n"], spec["d"]
    b = spec["bounds"]
    center = spec["center"]
    if center == "array":
        center = np.random.uniform(-2, 2, d)
    lo, hi = (np.zeros(d), np.ones(d)) if b is None else (np.array(b[0]), np.array(b[1]))
    clamp = W.make_clamp({"clamp": spec["clamp"]})
    vlo, vhi = (0.0, 1.0) if clamp is None else clamp
    cl, ch = np.minimum(center * lo, center * hi), np.maximum(center * lo, center * hi)
    arg = None if b is None else mkbounds(b, spec["as"])
    seen = []

    def position(x, what):
        mon.check(isinstance(x, np.ndarray) and x.shape == (n, d), what + ": wrong shape", shape=np.shape(x), want=(n, d))
        slack = 0.0 if np.ndim(center) == 0 and center == 1 else ULP
        mon.check(inside(x, cl, ch, slack), what + ": positions outside of center*bounds", lo=x.min(), hi=x.max(), bounds=b, center=center)
        seen.append(np.array(x))
        mon.count("generated_coordinates", x.size)

    def velocity(v, what):
        mon.check(isinstance(v, np.ndarray) and v.shape == (n, d), what + ": wrong shape", shape=np.shape(v))
        mon.check(inside(v, np.asarray(vlo), np.asarray(vhi), ULP), what + ": velocities outside of the clamp", lo=v.min(), hi=v.max(), clamp=clamp)
        mon.count("generated_velocities", v.size)

    pk, vk = {"bounds": arg, "center": center}, {"clamp": clamp}
    if spec["seed"] % 2:  # defaults left out: no bounds, not scaled, no clamp
        pk = {k: v for k, v in pk.items() if not (v is None or (k == "center" and np.ndim(v) == 0 and v == 1))}
        vk = {k: v for k, v in vk.items() if v is not None}
        mon.count("defaults", 3 - len(pk) - len(vk))
    position(P.generate_swarm(n, d, **pk), "generate_swarm")
    v1 = P.generate_velocity(n, d, **vk)
    velocity(v1, "generate_velocity")
    o = {"c1": 0.5, "c2": 0.25, "w": 3, "k": 2}
    sw = P.create_swarm(n, d, options=o, **pk, **vk)
    swarm_ok(sw, n, d, mon)
    mon.check(sw.options == o, "create_swarm lost the options", got=sw.options)
    position(sw.position, "create_swarm")
    velocity(sw.velocity, "create_swarm")
    mon.check(sw.n_particles == n and sw.dimensions == d, "swarm has wrong sizes", got=(sw.n_particles, sw.dimensions))
    if not (np.ndim(center) == 0 and center == 0):
        if n * d * (np.max(hi - lo) / np.spacing(np.max(np.abs([lo, hi])))) > 1e12:
            mon.check(not np.array_equal(seen[0], seen[1]), "two generated swarms are equal")
    if n * d * (np.max(np.asarray(vhi) - np.asarray(vlo)) / np.spacing(np.max(np.abs([vlo, vhi])))) > 1e12:
        mon.check(not np.array_equal(v1, sw.velocity), "two generated velocities are equal")
    if n * d >= 40:  # the whole range is used
        for lo_, hi_, arrs, what in ((np.asarray(vlo), np.asarray(vhi), (v1, sw.velocity), "velocities"), (lo, hi, seen, "positions")):
            if what == "positions" and not (np.ndim(center) == 0 and center == 1):
                continue
            for a in arrs:
                if not (hi_ > lo_).all():
                    continue
                u = (a - lo_) / (hi_ - lo_)
                mon.check(0.2 < u.mean() < 0.8 and u.std() > 0.12, "generated %s do not fill their range" % what, mean=u.mean(), std=u.std())
    if b is not None:
        mon.check(np.array_equal(np.asarray(arg[0], float), b[0]) and np.array_equal(np.asarray(arg[1], float), b[1]), "the bounds were modified")


def swarm_ok(sw, n, d, mon):
    mon.check(isinstance(sw, Swarm), "create_swarm does not return a Swarm")
    mon.check(float(sw.best_cost) == np.inf, "a new swarm already has a best cost", got=sw.best_cost)
    mon.check(np.array_equal(sw.pbest_pos, sw.position), "a new swarm's personal best positions are not its positions")


def k_init(spec, mon):
    n, d = spec["n"], spec["d"]
    lb, ub = np.array(spec["bounds"][0]), np.array(spec["bounds"][1])
    x = np.clip(np.random.uniform(lb, ub, (n, d)), lb, ub)
    r, c = spec["cell"]
    how = spec["how"]
    bad = False
    side = spec["side"]
    free = spec["nobounds"]
    if how == "edge":
        x[r, c] = (lb, ub)[side][c]
    elif how == "below":
        x[r, c] = lb[c] - max(1.0, abs(lb[c]))
        bad = True
    elif how == "above":
        x[r, c] = ub[c] + max(1.0, abs(ub[c]))
        bad = True
    elif how == "ulp":
        x[r, c] = np.nextafter(lb[c], -np.inf) if side else np.nextafter(ub[c], np.inf)
        bad = True
    elif how == "shape":
        sh = [(n + 1, d), (n, d + 1), (n + 2, d + 2), (d, n) if n != d else (n, d + 1), (n * d,), (1, n, d), (1, d) if n > 1 else (2, d), (n, 1) if d > 1 else (n, 2)][spec["seed"] % 8]
        x = np.resize(x, sh)
    elif how == "nan":
        x[r, c] = np.nan
        bad = True
    elif how == "inf":
        x[r, c] = np.inf if side else -np.inf
        bad = True
    elif how == "ints":
        y = np.clip(np.round(x), np.ceil(lb), np.floor(ub))
        if np.all(y >= lb) and np.all(y <= ub):
            x = y.astype(int)
    elif how == "fortran":
        x = np.asfortranarray(x)
    keep = np.array(x, copy=True)
    bad = (bad and not free) or how == "shape"
    mon.seen("initial", (how, free))
    bounds = None if free else (lb, ub)
    calls = {
        "generate_swarm": lambda: P.generate_swarm(n, d, bounds=bounds, init_pos=x),
        "create_swarm": lambda: P.create_swarm(n, d, bounds=bounds, init_pos=x).position,
        "center": lambda: P.generate_swarm(n, d, bounds=bounds, center=2.0, init_pos=x),
        "GlobalBestPSO": lambda: ps.single.GlobalBestPSO(n, d, {"c1": 1, "c2": 1, "w": 1}, bounds=bounds, init_pos=x).swarm.position,
        "LocalBestPSO": lambda: ps.single.LocalBestPSO(n, d, {"c1": 1, "c2": 1, "w": 1, "k": 1, "p": 2}, bounds=bounds, init_pos=x).swarm.position,
    }
    for name, f in calls.items():
        try:
            got = f()
        except ValueError as e:
            mon.check(bad, name + ": rejects valid initial positions", how=how, error=e, x=keep, bounds=bounds)
            mon.count("rejected_initial_positions")
            continue
        if not mon.check(not bad, name + ": accepts initial positions of a wrong shape or outside of the bounds", how=how, x=keep, bounds=bounds, want=(n, d)):
            continue
        mon.check(np.array_equal(got, keep, equal_nan=keep.dtype.kind == "f"), name + ": the swarm does not start at the given initial positions", how=how, got=got, want=keep)
        mon.check(np.array_equal(x, keep, equal_nan=keep.dtype.kind == "f"), name + ": the given initial positions were modified")
        mon.count("accepted_initial_positions")


def k_wrong(spec, mon):
    n, d = spec["n"], spec["d"]
    k = max(2, d + spec["delta"])
    if k == d:
        return
    lb, ub = np.full(k, -1.0), np.full(k, 2.0)
    x = np.zeros((n, d)) if spec["init"] else None
    for name, f in {
        "generate_swarm": lambda: P.generate_swarm(n, d, bounds=(lb, ub), init_pos=x),
        "one side": lambda: P.generate_swarm(n, d, bounds=(lb, np.full(d, 2.0)), init_pos=x),
        "lists": lambda: P.generate_swarm(n, d, bounds=(list(lb), list(ub))) if x is None else P.generate_swarm(n, d, bounds=(lb, ub), init_pos=x),
        "create_swarm": lambda: P.create_swarm(n, d, bounds=(lb, ub), init_pos=x),
        "GlobalBestPSO": lambda: ps.single.GlobalBestPSO(n, d, {"c1": 1, "c2": 1, "w": 1}, bounds=(lb, ub), init_pos=x),
    }.items():
        try:
            f()
            mon.check(False, name + ": bounds of a wrong length are accepted", length=k, dimensions=d)
        except ValueError:
            mon.check(True, "")
            mon.count("rejected_bounds")
    # a clamp of the wrong length
    try:
        P.generate_velocity(n, d, clamp=(lb, ub))
        mon.check(False, "generate_velocity: a clamp of a wrong length is accepted")
    except ValueError:
        mon.check(True, "")


def k_binary(spec, mon):
    n, d = spec["n"], spec["d"]
    for x in (P.generate_discrete_swarm(n, d, binary=True), P.create_swarm(n, d, discrete=True, binary=True).position):
        mon.check(x.shape == (n, d) and bool(np.isin(x, (0, 1)).all()), "a binary swarm is not made of zeros and ones", shape=x.shape)
        if n * d >= 60:
            mon.check(0 < x.sum() < n * d, "a binary swarm is constant")
        mon.count("generated_bits", x.size)


def k_perm(spec, mon):
    n, d = spec["n"], spec["d"]
    for x in (P.generate_discrete_swarm(n, d), P.create_swarm(n, d, discrete=True).position):
        mon.check(x.shape == (n, d), "discrete swarm of a wrong shape", shape=x.shape)
        mon.check(bool((np.sort(x, axis=1) == np.arange(d)).all()), "a discrete particle is not a permutation of 0..dimensions-1", x=x[:3])
        if n > 12 and d > 4:
            mon.check(len({tuple(r) for r in x}) > 1, "all particles have the same permutation")
        mon.count("generated_permutations", n)


def k_binit(spec, mon):
    n, d = spec["n"], spec["d"]
    x = np.resize(np.array(spec["values"]), (n, d))
    if spec["spare"] and x.size > 3:  # a single odd cell among proper bits
        odd = spec["values"][-1]
        x = np.where(np.arange(n * d).reshape(n, d) % 2 == 1, 1, 0).astype(x.dtype)
        x[np.random.randint(n), np.random.randint(d)] = odd
    many = len(set(np.asarray(x, float).ravel().tolist())) > 2
    for name, f in {
        "generate_discrete_swarm": lambda: P.generate_discrete_swarm(n, d, binary=True, init_pos=x),
        "create_swarm": lambda: P.create_swarm(n, d, discrete=True, binary=True, init_pos=x).position,
        "BinaryPSO": lambda: ps.discrete.BinaryPSO(n, d, {"c1": 1, "c2": 1, "w": 1, "k": 1, "p": 2}, init_pos=x).swarm.position,
    }.items():
        try:
            got = f()
            mon.check(not many, name + ": accepts initial positions with more than two values", x=x)
            mon.check(np.array_equal(got, x), name + ": does not use the given initial positions")
        except ValueError:
            mon.check(many, name + ": rejects binary initial positions", x=x)
            mon.count("rejected_initial_positions")
    got = P.generate_discrete_swarm(n, d, init_pos=x)
    mon.check(np.array_equal(got, x), "a discrete swarm does not use the given initial positions")
    for sh in [(n + 1, d), (n, d + 1), (1, n, d)]:
        try:
            P.generate_discrete_swarm(n, d, binary=bool(spec["seed"] % 2), init_pos=np.ones(sh, int))
            mon.check(False, "initial positions of a wrong shape are accepted", shape=sh, want=(n, d))
        except ValueError:
            mon.check(True, "")


def k_permstat(spec, mon):
    """Permutations are uniform and independent between particles."""
    import itertools
    import math

    d = spec["d"]
    m = 6000
    x = P.generate_discrete_swarm(m, d)
    perms = {p: i for i, p in enumerate(itertools.permutations(range(d)))}
    idx = np.array([perms[tuple(int(v) for v in r)] for r in x])
    k = math.factorial(d)
    cnt = np.bincount(idx, minlength=k)
    chi = ((cnt - m / k) ** 2 / (m / k)).sum()
    mon.check(chi < 3 * k + 120, "permutations are not uniform", chi=chi, counts=cnt)
    pair = np.bincount(idx[:-1:2] * k + idx[1::2], minlength=k * k)
    e = (m // 2) / k / k
    chi = ((pair - e) ** 2 / e).sum()
    mon.check(chi < k * k + 12 * np.sqrt(2 * k * k) + 120, "permutations of neighbouring particles depend on each other", chi=chi)
    mon.count("generated_permutations", m)


def k_bitstat(spec, mon):
    x = P.generate_discrete_swarm(400, 50, binary=True)
    stats.bernoulli(x, np.full(x.shape, 0.5), mon, "binary swarm")
    stats.uncorrelated(x[:-1] + 1e-3 * np.random.random((399, 50)), x[1:], mon, "bits of neighbouring particles")
    for axis in (0, 1):
        s = x.sum(axis=axis) - x.shape[axis] / 2
        q = (s ** 2 / (x.shape[axis] / 4)).mean()
        z = (q - 1) / np.sqrt(2 / s.size)
        mon.check(z < 9, "bits are not independent along axis %d" % axis, z=z)


def k_optimizer(spec, mon):
    c = spec["conf"]
    n, d = c["n"], c["d"]
    b = W.build(c, spec["seed"], record_topo=False)
    for phase in ("construction", "reset"):
        sw = b.opt.swarm
        swarm_ok(sw, n, d, mon)
        x = np.asarray(sw.position, float)
        mon.check(np.shape(sw.position) == (n, d) and np.shape(sw.velocity) == (n, d), "optimizer's swarm has a wrong shape")
        if b.init is not None:
            mon.check(np.array_equal(x, np.asarray(b.keep[3], float)), "optimizer does not start at the user's initial positions", phase=phase)
        elif c["opt"] == "binary":
            mon.check(bool(np.isin(x, (0, 1)).all()), "binary optimizer starts at something else than bits")
        else:
            lo, hi = (np.zeros(d), np.ones(d)) if c["bounds"] is None else (np.array(c["bounds"][0]), np.array(c["bounds"][1]))
            f = np.asarray(c["center"], float)
            mon.check(inside(x, np.minimum(f * lo, f * hi), np.maximum(f * lo, f * hi), ULP if np.ndim(f) or f != 1 else 0.0), "optimizer starts outside of its (scaled) bounds", phase=phase, center=c["center"])
            mon.count("scaled_swarms", int(bool(np.any(f != 1))))
        vlo, vhi = (0.0, 1.0) if b.clamp is None else b.clamp
        mon.check(inside(sw.velocity, np.asarray(vlo), np.asarray(vhi), ULP), "optimizer starts with velocities outside of the clamp", phase=phase)
        mon.check(dict(sw.options) == c["options"], "optimizer's swarm has other options", got=sw.options)
        mon.count("optimizer_swarms")
        b.opt.reset()
