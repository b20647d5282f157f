"""C19: the cost decorator. Monitor: a recording scalar function under the decorator."""
import functools
import inspect

import numpy as np

import pyswarms as ps

from .. import core
from .. import sessions as S
from .. import work as W

RET = ["float", "int", "npfloat", "npint", "bool", "array0", "f32", "inf", "nan", "mixed", "bigint"]
BAD = ["array1", "list", "array2", "none-array", "ragged", "matrix", "str-list", "row"]


def cases(tier, seed):
    rng = S.rng_for("C19", seed, tier)
    q = 3 if tier == "quick" else 30
    for r in range(60 * q):
        for ret in RET:
            n, d = int(W.pick(rng, [1, 2, 3, 5, 17, 120, 600, 1025], [.17, .17, .17, .17, .17, .1, .03, .02])), int(W.pick(rng, [1, 2, 3, 9]))
            yield {"kind": "vector", "n": n, "d": d, "ret": ret, "kwargs": int(rng.integers(0, 5)), "lay": W.pick(rng, ["c", "f", "strided", "int", "readonly", "obj", "nonfinite"] if ret not in ("int", "npint", "bigint", "mixed") else ["c", "f", "strided", "int", "readonly", "obj"]),
                   "wrap": W.pick(rng, ["def", "lambda", "method", "partial", "callable"])}
        for ret in BAD:
            yield {"kind": "bad", "n": int(W.pick(rng, [1, 2, 3, 4, 11])), "d": int(W.pick(rng, [1, 2, 3])), "ret": ret, "kwargs": int(rng.integers(0, 3))}
        yield {"kind": "raises", "n": int(rng.integers(1, 9)), "d": 2, "exc": W.pick(rng, sorted(W.EXC))}
        yield {"kind": "meta", "which": r}
    for n in (513, 1024, 5000, 20000):
        for ret in ("float", "npfloat", "mixed", "array0"):
            yield {"kind": "vector", "n": n, "d": 2, "ret": ret, "kwargs": 1, "lay": "c", "wrap": "def"}
    for opt, topo in S.ALL_KINDS:
        for r in range(12 * q):
            yield {"kind": "optimizer", "conf": W.gen_conf(rng, opt=opt, topo=topo), "procs": int(rng.integers(1, 4)) if r % 4 == 0 else None, "twice": bool(r % 3 == 0)}


def run(spec, mon):
    return globals()["k_" + spec["kind"]](spec, mon)


KW = [{}, {"a": 1.5}, {"a": -2.0, "b": np.array([1.0, 2.0])}, {"self_": 3, "x0": [1, 2], "particles_": "z"}, {"a": 0.0, "flag": None, "f": len}]


def value(i, x, ret):
    s = float(np.sum(np.asarray(x, float) * (1 + np.arange(len(x)))))
    if ret == "float":
        return s
    if ret == "int":
        return int(round(s)) + i
    if ret == "npfloat":
        return np.float64(s) + i
    if ret == "npint":
        return np.int64(round(s))
    if ret == "bool":
        return bool(s > 0)
    if ret == "array0":
        return np.array(s)
    if ret == "f32":
        return np.float32(s)
    if ret == "inf":
        return [np.inf, -np.inf, s][i % 3]
    if ret == "nan":
        return [np.nan, s][i % 2]
    if ret == "mixed":
        return [s, int(s), np.float32(s)][i % 3]
    if ret == "bigint":
        return int(s) + 2 ** 52 * (i % 2)
    raise core.HarnessError(ret)


def matrix(n, d, lay, rng):
    x = rng.normal(size=(n, d)) * 3
    if lay == "f":
        return np.asfortranarray(x)
    if lay == "strided":
        z = np.full((2 * n, 2 * d), 7e9)
        z[::2, 1::2] = x
        return z[::2, 1::2]
    if lay == "int":
        return np.round(x).astype(int)
    if lay == "nonfinite":
        return np.where(rng.random((n, d)) < 0.4, rng.choice([np.nan, np.inf, -np.inf, 1e300], (n, d)), x)
    if lay == "readonly":
        x.setflags(write=False)
    return x


def same_kw(a, b):
    return list(sorted(a)) == list(sorted(b)) and all(a[k] is b[k] for k in a)


def k_vector(spec, mon):
    n, d, ret = spec["n"], spec["d"], spec["ret"]
    rng = np.random.default_rng(spec["seed"])
    x = matrix(n, d, spec["lay"], rng)
    keep = np.array(x, copy=True)
    calls = []
    kw = KW[spec["kwargs"]]

    def body(z, **k):
        calls.append((np.array(z, copy=True), k))
        return value(len(calls) - 1, z, ret)

    class Owner:
        def m(self, z, **k):
            return body(z, **k)

        def __call__(self, z, **k):
            return body(z, **k)

    w = spec["wrap"]
    if w == "def":
        @ps.cost
        def f(z, **k):
            return body(z, **k)
    elif w == "lambda":
        f = ps.cost(lambda z, **k: body(z, **k))
    elif w == "method":
        f = ps.cost(Owner().m)
    elif w == "partial":
        f = ps.cost(functools.partial(lambda q, z, **k: body(z, **k), 1))
    else:
        f = ps.cost(Owner())
    for rep in range(2):
        calls.clear()
        y = f(x, **kw)
        want = [value(i, r, ret) for i, r in enumerate(keep)]
        mon.check(isinstance(y, np.ndarray) and y.shape == (n,), "decorated function does not return a vector", shape=np.shape(y))
        mon.check(np.array_equal(np.asarray(y, float), np.asarray(want, float), equal_nan=True), "decorated function returns other values", got=y, want=want)
        mon.check(len(calls) == n, "the scalar function is not called exactly once per particle", calls=len(calls), n=n)
        for i, (z, k) in enumerate(calls):
            mon.check(z.shape == (d,) and i < n and np.array_equal(z, keep[i], equal_nan=True), "the scalar function gets other coordinates or another order", particle=i, got=z)
            mon.check(same_kw(k, kw), "the scalar function gets other keyword arguments", got=sorted(k), want=sorted(kw))
            mon.count("scalar_calls")
        mon.check(np.array_equal(x, keep, equal_nan=True), "the decorator modifies its input")
        y2 = np.array(y)
        f(x[::-1] if n > 1 else x + 1, **kw)
        mon.check(np.array_equal(np.asarray(y, float), np.asarray(y2, float), equal_nan=True), "a later call changes the vector returned before", before=y2, after=y)
        mon.count("results_kept")
        y[...] = 0
        calls.clear()
        mon.check(np.array_equal(np.asarray(f(x, **kw), float), np.asarray(y2, float), equal_nan=True), "using the result changes later results")
    mon.seen("returns", (ret, w, spec["lay"], spec["kwargs"]))


def k_bad(spec, mon):
    n, d, ret = spec["n"], spec["d"], spec["ret"]
    x = np.random.default_rng(spec["seed"]).normal(size=(n, d))
    k = [0]

    def f(z, **kw):
        k[0] += 1
        if ret == "array1":
            return np.array([z.sum()])
        if ret == "list":
            return [1.0, 2.0]
        if ret == "array2":
            return np.zeros((1, 1))
        if ret == "none-array":
            return np.array([])
        if ret == "ragged":
            return [0.0] * (1 + k[0] % 2) if n > 1 else [0.0]
        if ret == "matrix":
            return np.zeros((2, 3))
        if ret == "str-list":
            return ("a", "b")
        return np.zeros(n)

    try:
        y = ps.cost(f)(x, **{"a": 1} if spec["kwargs"] else {})
        mon.check(False, "a scalar function that does not give one number per particle is accepted", ret=ret, n=n, got=y)
    except ValueError:
        mon.check(True, "")
        mon.count("rejected_returns")


def k_raises(spec, mon):
    n = spec["n"]
    e = W.EXC[spec["exc"]]("the message", spec["seed"])
    at = spec["seed"] % n
    calls = []

    @ps.cost
    def f(z, **kw):
        calls.append(1)
        if len(calls) == at + 1:
            raise e
        return 1.0

    try:
        f(np.zeros((n, 2)), q=1)
        mon.check(False, "an exception of the scalar function was swallowed", exc=spec["exc"])
    except BaseException as got:
        if isinstance(got, core.CaseTimeout):
            raise
        mon.check(got is e, "an exception of the scalar function was replaced", got=repr(got), want=repr(e))
        mon.check(len(calls) == at + 1, "the scalar function is called again after it failed", calls=len(calls), failed=at + 1)
    mon.count("raised_errors")


def documented(z, a=1, *, b: float = 2.0) -> float:
    """A docstring."""
    return float(z.sum()) * a + b


documented.tag = "kept"


def k_meta(spec, mon):
    g = ps.cost(documented)
    for at in ("__name__", "__doc__", "__module__", "__qualname__", "tag"):
        mon.check(getattr(g, at, None) == getattr(documented, at), "metadata %s is lost" % at, got=getattr(g, at, None))
    mon.check(getattr(g, "__wrapped__", None) is documented, "the original function is not reachable")
    mon.check(str(inspect.signature(g)) == str(inspect.signature(documented)), "the signature is lost")
    x = np.random.default_rng(spec["seed"]).normal(size=(4, 3))
    mon.check(np.allclose(g(x, a=2, b=1.0), x.sum(axis=1) * 2 + 1), "keyword-only arguments do not arrive")
    mon.check(np.allclose(g(x), x.sum(axis=1) + 2), "default arguments are lost")
    mon.check(documented(x[0]) == float(x[0].sum()) + 2, "the original function changed")
    mon.check(ps.cost is ps.utils.decorators.cost, "pyswarms.cost is another object than the documented decorator")


def scalar(z, **kw):
    return W.RowObj("rastrigin", {"shift": 0.2}).value(z[None, :], **kw)[0]


decorated = ps.cost(scalar)


def vectorized(x, **kw):
    return np.array([scalar(r, **kw) for r in x])


def k_optimizer(spec, mon):
    from .c13 import same_state, state

    c = spec["conf"]
    res = []
    # multiprocessing needs importable functions
    for f, procs in ((vectorized, None), (decorated, None)) + (((top_level, spec["procs"]),) if spec["procs"] else ()):
        np.random.seed(spec["seed"] % 2**32)
        b = W.build(c, spec["seed"], record_topo=False)
        r = [b.opt.optimize(f, 4, n_processes=procs, verbose=False, a=1.5)]
        if spec["twice"]:
            r.append(b.opt.optimize(f, 3, n_processes=procs, verbose=False))
        res.append(([np.array(v) for q in r for v in q], state(b.opt)))
    for other in res[1:]:
        mon.check(all(np.array_equal(p, q, equal_nan=True) for p, q in zip(res[0][0], other[0])), "the decorated function gives another optimization result than its vectorized equivalent")
        msg = same_state(res[0][1], other[1])
        mon.check(msg is None, "the decorated function gives other histories than its vectorized equivalent", why=msg)
    mon.count("decorated_runs")


@ps.cost
def top_level(z, **kw):
    return W.RowObj("rastrigin", {"shift": 0.2}).value(z[None, :], **kw)[0]
