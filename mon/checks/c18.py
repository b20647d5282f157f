"""C18: benchmark functions. Oracle: scalar formulas from the literature evaluated with math."""
import math

import numpy as np
from scipy import optimize as so

from pyswarms.utils.functions import single_obj as fx

from .. import sessions as S
from .. import work as W

E, PI = math.e, math.pi


def f_ackley(p):
    d = len(p)
    return -20 * math.exp(-0.2 * math.sqrt(math.fsum(v * v for v in p) / d)) - math.exp(math.fsum(math.cos(2 * PI * v) for v in p) / d) + 20 + E


def f_beale(p):
    x, y = p
    return (1.5 - x + x * y) ** 2 + (2.25 - x + x * y * y) ** 2 + (2.625 - x + x * y * y * y) ** 2


def f_booth(p):
    x, y = p
    return (x + 2 * y - 7) ** 2 + (2 * x + y - 5) ** 2


def f_bukin6(p):
    x, y = p
    return 100 * math.sqrt(abs(y - 0.01 * x * x)) + 0.01 * abs(x + 10)


def f_crossintray(p):
    x, y = p
    return -0.0001 * (abs(math.sin(x) * math.sin(y) * math.exp(abs(100 - math.sqrt(x * x + y * y) / PI))) + 1) ** 0.1


def f_easom(p):
    x, y = p
    return -math.cos(x) * math.cos(y) * math.exp(-((x - PI) ** 2 + (y - PI) ** 2))


def f_eggholder(p):
    x, y = p
    return -(y + 47) * math.sin(math.sqrt(abs(x / 2 + y + 47))) - x * math.sin(math.sqrt(abs(x - (y + 47))))


def f_goldstein(p):
    x, y = p
    a = 1 + (x + y + 1) ** 2 * (19 - 14 * x + 3 * x * x - 14 * y + 6 * x * y + 3 * y * y)
    b = 30 + (2 * x - 3 * y) ** 2 * (18 - 32 * x + 12 * x * x + 48 * y - 36 * x * y + 27 * y * y)
    return a * b


def f_himmelblau(p):
    x, y = p
    return (x * x + y - 11) ** 2 + (x + y * y - 7) ** 2


def f_holdertable(p):
    x, y = p
    return -abs(math.sin(x) * math.cos(y) * math.exp(abs(1 - math.sqrt(x * x + y * y) / PI)))


def f_levi(p):
    # as defined by the code base: the inner factor is (x - 1)^2
    x, y = p
    w, u = 1 + (x - 1) / 4, 1 + (y - 1) / 4
    return math.sin(PI * w) ** 2 + (x - 1) ** 2 * (1 + 10 * math.sin(PI * w + 1) ** 2) + (u - 1) ** 2 * (1 + math.sin(2 * PI * u) ** 2)


def f_matyas(p):
    x, y = p
    return 0.26 * (x * x + y * y) - 0.48 * x * y


def f_rastrigin(p):
    return 10.0 * len(p) + math.fsum(v * v - 10 * math.cos(2 * PI * v) for v in p)


def f_rosenbrock(p):
    return math.fsum(100 * (b - a * a) ** 2 + (1 - a) ** 2 for a, b in zip(p, p[1:]))


def f_schaffer2(p):
    x, y = p
    return 0.5 + (math.sin(x * x - y * y) ** 2 - 0.5) / (1 + 0.001 * (x * x + y * y)) ** 2


def f_sphere(p):
    return math.fsum(v * v for v in p)


def f_threehump(p):
    x, y = p
    return 2 * x * x - 1.05 * x ** 4 + x ** 6 / 6 + x * y + y * y


sym = lambda a, b: [(a, b), (-a, b), (a, -b), (-a, -b)]
# name: (domain per coordinate, two-dimensional only, minimum value, points, tolerance of the documented digits)
F = {
    "ackley": ([(-32, 32)], False, 0.0, "zeros", 1e-9),
    "beale": ([(-4.5, 4.5)] * 2, True, 0.0, [(3, 0.5)], 1e-12),
    "booth": ([(-10, 10)] * 2, True, 0.0, [(1, 3)], 1e-12),
    "bukin6": ([(-15, -5), (-3, 3)], True, 0.0, [(-10, 1)], 1e-9),
    "crossintray": ([(-10, 10)] * 2, True, -2.06261, sym(1.34941, 1.34941), 1e-5),
    "easom": ([(-100, 100)] * 2, True, -1.0, [(PI, PI)], 1e-12),
    "eggholder": ([(-512, 512)] * 2, True, -959.6407, [(512, 404.2319)], 1e-4),
    "goldstein": ([(-2, 2)] * 2, True, 3.0, [(0, -1)], 1e-9),
    "himmelblau": ([(-5, 5)] * 2, True, 0.0, [(3, 2), (-2.805118, 3.131312), (-3.779310, -3.283186), (3.584428, -1.848126)], 1e-9),
    "holdertable": ([(-10, 10)] * 2, True, -19.2085, sym(8.05502, 9.66459), 1e-4),
    "levi": ([(-10, 10)] * 2, True, 0.0, [(1, 1)], 1e-12),
    "matyas": ([(-10, 10)] * 2, True, 0.0, [(0, 0)], 1e-12),
    "rastrigin": ([(-5.12, 5.12)], False, 0.0, "zeros", 1e-9),
    "rosenbrock": ([(-math.inf, math.inf)], False, 0.0, "ones", 1e-12),
    "schaffer2": ([(-100, 100)] * 2, True, 0.0, [(0, 0)], 1e-12),
    "sphere": ([(-math.inf, math.inf)], False, 0.0, "zeros", 1e-12),
    "threehump": ([(-5, 5)] * 2, True, 0.0, [(0, 0)], 1e-12),
}
LAYOUTS = ["c", "f", "strided", "readonly", "int", "reversed"]


def cases(tier, seed):
    rng = S.rng_for("C18", seed, tier)
    q = 1 if tier == "quick" else 10
    for name, (dom, two, *_rest) in F.items():
        for d in ([2] if two else [1, 2, 3, 6, 30]):
            for n in (1, 2, 3, 17, 64, 1000):
                for how in ("inner", "edge", "near", "grid", "ticks"):
                    for lay in LAYOUTS:
                        for r in range(q):
                            if n == 1000 and (lay not in ("c", "f") or how == "ticks"):
                                continue
                            yield {"kind": "values", "f": name, "n": n, "d": d, "how": how, "lay": lay}
            for n in (5000, 70000) if d <= 3 else (5000,):
                yield {"kind": "many", "f": name, "n": n, "d": d}
            for n in (1, 2, 5, 40):
                for r in range(3 * q):
                    yield {"kind": "domain", "f": name, "n": n, "d": d}
        for d in [] if two else [15, 50, 64, 65, 100, 101, 128, 129, 150, 256, 257, 300, 513, 1000]:
            for n in (1, 2, 9):
                for how in ("inner", "edge", "near"):
                    yield {"kind": "values", "f": name, "n": n, "d": d, "how": how, "lay": "c"}
            yield {"kind": "domain", "f": name, "n": 2, "d": d}
        for r in range(2 * q):
            yield {"kind": "minimum", "f": name, "rep": r}
        if two:
            for d in (1, 3, 4, 10):
                for n in (1, 2, 5):
                    yield {"kind": "columns", "f": name, "n": n, "d": d}


def box(name, d):
    dom = F[name][0]
    return (dom * d)[:d] if len(dom) == 1 else dom


def points(name):
    p = F[name][3]
    return p


def run(spec, mon):
    return globals()["k_" + spec["kind"]](spec, mon)


def scale(name, p):
    """Magnitude of the terms, for rounding slack."""
    m = max(1.0, max(abs(v) for v in p))
    s = {"ackley": 50, "beale": 3 * (m ** 4) ** 2 * 0.05 + 50, "booth": (3 * m + 7) ** 2, "bukin6": 100, "crossintray": 5, "easom": 1,
         "eggholder": 2000, "goldstein": 1e6, "himmelblau": 2e3, "holdertable": 30, "levi": 2e3, "matyas": m * m, "rastrigin": len(p) * (m * m + 10),
         "rosenbrock": len(p) * 100 * (m ** 2 + m) ** 2, "schaffer2": 1, "sphere": len(p) * m * m, "threehump": 4 * m ** 6}[name]
    return s


def tol(name, p, v, want):
    t = 1e-12 * scale(name, p) + 1e-10 * abs(want)
    if name == "bukin6":
        # the square root amplifies rounding at the ridge: compare squared
        e = 1e-15 * (abs(p[1]) + 0.01 * p[0] ** 2)
        t += 100 * math.sqrt(e)
    if name in ("crossintray",):
        # near a multiple of pi the sine's own rounding is multiplied by exp(100)
        t += 1e-6 if min(abs(math.sin(p[0])), abs(math.sin(p[1]))) < 1e-12 else 0
    return t


def sample(name, n, d, how, rng):
    b = box(name, d)
    lo = np.array([max(a, -1e3) if math.isinf(a) else a for a, _ in b], float)
    hi = np.array([min(c, 1e3) if math.isinf(c) else c for _, c in b], float)
    if how == "inner":
        x = rng.uniform(lo, hi, (n, d))
    elif how == "edge":
        x = np.where(rng.random((n, d)) < 0.6, np.where(rng.random((n, d)) < 0.5, lo, hi), rng.uniform(lo, hi, (n, d)))
    elif how == "near":
        p = points(name)
        if isinstance(p, str):
            c = np.zeros((n, d)) if p == "zeros" else np.ones((n, d))
        else:
            c = np.array(p, float)[rng.integers(0, len(p), n)]
        x = c + rng.normal(size=(n, d)) * 10.0 ** rng.integers(-8, 1, (n, 1))
    elif how == "grid":
        x = rng.integers(np.ceil(np.maximum(lo, -50)).astype(int), np.floor(np.minimum(hi, 50)).astype(int) + 1, (n, d)).astype(float)
    else:
        x = rng.choice([0.0, -0.0, 0.5, 1.0, -1.0, PI / 2, -PI, 1e-9, 1e-160], (n, d))
    return np.clip(x, lo, hi)


def layout(x, lay):
    if lay == "f":
        return np.asfortranarray(x)
    if lay == "strided":
        z = np.full((2 * x.shape[0], 3 * x.shape[1]), 1e9)
        z[::2, ::3] = x
        return z[::2, ::3]
    if lay == "readonly":
        x = x.copy()
        x.setflags(write=False)
        return x
    if lay == "int":
        return x.astype(int) if np.array_equal(x, np.round(x)) else x
    if lay == "reversed":
        return x[::-1].copy()[::-1]
    return x


def k_values(spec, mon):
    name, n, d = spec["f"], spec["n"], spec["d"]
    f = getattr(fx, name)
    rng = np.random.default_rng(spec["seed"])
    x0 = sample(name, n, d, spec["how"], rng)
    x = layout(x0, spec["lay"])
    keep = np.array(x, copy=True)
    y = f(x)
    mon.seen("functions", (name, spec["how"], spec["lay"]))
    mon.check(np.array_equal(x, keep), name + " modifies its input")
    if not mon.check(isinstance(y, np.ndarray) and y.shape == (n,), name + " does not return one value per particle", shape=np.shape(y)):
        return
    y = np.asarray(np.ma.filled(y, np.nan), float)
    g = globals()["f_" + name]
    for i in range(n):
        p = [float(v) for v in x0[i]]
        want = g(p)
        t = tol(name, p, y[i], want)
        if not mon.check(abs(y[i] - want) <= t, name + " differs from its formula", x=p, got=y[i], want=want, tol=t):
            return
        mon.count("values")
    # independence of the other rows and of their order
    perm = rng.permutation(n)
    z = np.asarray(np.ma.filled(f(np.ascontiguousarray(np.array(x)[perm])), np.nan), float)
    T = np.array([tol(name, [float(v) for v in r], 0, b) for r, b in zip(x0, y)])
    mon.check(bool((np.abs(z - y[perm]) <= T[perm]).all()), name + " depends on the order of the rows")
    i = int(rng.integers(n))
    one = np.asarray(np.ma.filled(f(np.array(x)[i:i + 1]), np.nan), float)
    mon.check(one.shape == (1,) and abs(one[0] - y[i]) <= T[i], name + " depends on the other rows", got=one, want=y[i])
    again = np.asarray(np.ma.filled(f(x), np.nan), float)
    mon.check(np.array_equal(again, y), name + " gives another value the second time")


def k_many(spec, mon):
    """Many rows: every row gets the value it gets in a small matrix."""
    name, n, d = spec["f"], spec["n"], spec["d"]
    f = getattr(fx, name)
    rng = np.random.default_rng(spec["seed"])
    x = sample(name, n, d, "inner", rng)
    y = f(x)
    if not mon.check(isinstance(y, np.ndarray) and y.shape == (n,), name + " does not return one value per particle", shape=np.shape(y)):
        return
    y = np.asarray(np.ma.filled(y, np.nan), float)
    g = globals()["f_" + name]
    for i in np.concatenate([[0, n - 1], rng.integers(0, n, 300)]):
        p = [float(v) for v in x[i]]
        want = g(p)
        t = tol(name, p, y[i], want)
        if not mon.check(abs(y[i] - want) <= t, name + " differs from its formula in a large matrix", x=p, got=y[i], want=want, row=int(i), n=n):
            return
        mon.count("values")
    parts = np.concatenate([np.asarray(np.ma.filled(f(x[a:a + 97]), np.nan), float) for a in range(0, n, 97)])
    s = max(scale(name, [float(v) for v in x[i]]) for i in rng.integers(0, n, 200))
    mon.check(bool((np.abs(parts - y) <= 1e-5 + 1e-9 * s + 1e-9 * np.abs(y)).all()), name + " depends on the number of rows")
    # a single coordinate outside of the domain is noticed in any row
    b = box(name, d)
    if not math.isinf(b[0][0]):
        for i in (0, n // 2, n - 1, int(rng.integers(n))):
            z = x.copy()
            j = int(rng.integers(d))
            z[i, j] = b[j][1] + 0.5
            try:
                f(z)
                mon.check(False, name + " accepts a coordinate outside of its domain", row=i, n=n)
            except ValueError:
                mon.count("rejections")


def k_domain(spec, mon):
    name, n, d = spec["f"], spec["n"], spec["d"]
    f = getattr(fx, name)
    rng = np.random.default_rng(spec["seed"])
    b = box(name, d)
    if math.isinf(b[0][0]):
        x = rng.uniform(-1, 1, (n, d)) * 10.0 ** rng.integers(0, 60, (n, 1))
        y = f(x)
        mon.check(np.shape(y) == (n,) and bool(np.isfinite(y).all()), name + " rejects or overflows on an unbounded domain")
        return
    x = sample(name, n, d, "inner", rng)
    for r in range(n if n < 6 else 6):
        for c in range(min(d, 6)):
            for side in (0, 1):
                i = r if n < 6 else int(rng.integers(n))
                j = c if d < 7 else int(rng.integers(d))
                e = float(b[j][side])
                out = -np.inf if side == 0 else np.inf
                for v in (np.nextafter(e, out), e + math.copysign(0.3, out), e * 40 + math.copysign(100, out), out):
                    z = x.copy()
                    z[i, j] = v
                    try:
                        f(z)
                        mon.check(False, name + " accepts a coordinate outside of its domain", value=v, domain=b[j], coordinate=j, row=i)
                    except ValueError:
                        mon.check(True, "")
                        mon.count("rejections")
                z = x.copy()
                z[i, j] = e
                try:
                    f(z)
                    mon.check(True, "")
                    mon.count("boundary_acceptances")
                except ValueError as err:
                    mon.check(False, name + " rejects the boundary of its domain", value=e, coordinate=j, error=err)
    # every single coordinate on the boundary at once
    for side in (0, 1):
        z = np.array([[float(b[j][side]) for j in range(d)]] * n)
        try:
            f(z)
            mon.check(True, "")
        except ValueError as err:
            mon.check(False, name + " rejects a corner of its domain", corner=z[0], error=err)


def k_columns(spec, mon):
    name = spec["f"]
    f = getattr(fx, name)
    b = box(name, 2)
    for x in (np.full((spec["n"], spec["d"]), -1.0), np.zeros((spec["n"], spec["d"])), np.full((spec["n"], spec["d"]), 1e9)):
        try:
            y = f(x)
            mon.check(False, name + " accepts %d columns" % spec["d"], got=y)
        except IndexError:
            mon.check(True, "")
            mon.count("rejected_columns")
        except ValueError as e:
            mon.check(False, name + " raises ValueError instead of IndexError for %d columns" % spec["d"], error=e)


def k_minimum(spec, mon):
    name = spec["f"]
    f = getattr(fx, name)
    _, two, m, pts, t = F[name]
    rng = np.random.default_rng(spec["seed"])
    for d in ([2] if two else ([2, 3, 7] if name == "rosenbrock" else [1, 2, 5, 20])):
        P = [[0.0] * d] if pts == "zeros" else [[1.0] * d] if pts == "ones" else pts
        for p in P:
            v = np.ma.filled(f(np.array([p], float)), np.nan)[0]
            mon.check(abs(v - m) <= t, name + " does not attain its documented minimum at the documented point", point=p, got=v, want=m)
            mon.count("documented_points")
        b = box(name, d)
        lo = np.array([-50.0 if math.isinf(a) else a for a, _ in b])
        hi = np.array([50.0 if math.isinf(c) else c for _, c in b])
        X = [rng.uniform(lo, hi, (20000, d))]
        for p in P:
            X.append(np.clip(np.array(p, float) + rng.normal(size=(2000, d)) * 10.0 ** rng.uniform(-6, 0.5, (2000, 1)), lo, hi))
        X = np.concatenate(X)
        y = np.asarray(np.ma.filled(f(X), np.nan))
        mon.check(bool((y >= m - t).all()), name + " undercuts its documented minimum", least=np.nanmin(y), at=X[np.nanargmin(y)], minimum=m)
        mon.count("searched_points", len(X))
        # descend from the best samples
        one = lambda z: float(np.ma.filled(f(np.clip(z, lo, hi)[None, :]), np.nan)[0])
        for i in np.argsort(y)[:3]:
            r = so.minimize(one, X[i], method="Nelder-Mead", options={"maxiter": 300})
            mon.check(r.fun >= m - t, name + " undercuts its documented minimum", least=r.fun, at=r.x, minimum=m)
            mon.count("descents")
