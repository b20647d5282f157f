"""C24: invalid configurations are rejected with the documented errors, valid ones are not.
Faults are planted singly into valid configurations; the monitor compares the exception (type and
moment) with the documented one."""
import abc
import importlib
import itertools
import pkgutil
import types

import numpy as np

import pyswarms as ps
import pyswarms.backend as P
from pyswarms.backend.handlers import BoundaryHandler, OptionsHandler, VelocityHandler
from pyswarms.backend.swarms import Swarm
from pyswarms.backend.topology import Topology
from pyswarms.base import DiscreteSwarmOptimizer, SwarmOptimizer
from pyswarms.utils.search import GridSearch, RandomSearch

from .. import core
from .. import sessions as S
from .. import work as W

BAD_NAMES = ["", "Nearest", "nearest ", "neares", "memory", "strategies", "strategy", "__call__", "_get_all_strategies", None, "clamp", "rep",
             "__init__", "default", "none", "unmodifiedx", "bounce"]


def cases(tier, seed):
    rng = S.rng_for("C24", seed, tier)
    q = 1 if tier == "quick" else 12
    names = [k for k in FAULTS]
    for i in range(60 * q):
        for f in names:
            yield {"kind": "fault", "fault": f, "opt": S.ALL_KINDS[int(rng.integers(len(S.ALL_KINDS)))], "s": int(rng.integers(1 << 30))}
    for opt in S.ALL_KINDS:
        for f in names:
            yield {"kind": "fault", "fault": f, "opt": opt, "s": int(rng.integers(1 << 30))}
    for i in range(250 * q):
        s = S.gen_session(rng, max_iters=4, p_multi=0.1, p_ftol=0.3)
        s["kind"] = "valid"
        yield s
    for opt in S.ALL_KINDS:
        yield {"kind": "edges", "opt": opt}
    for i in range(30 * q):
        yield {"kind": "nonswarm", "s": int(rng.integers(1 << 30))}
    for i in range(60 * q):
        yield {"kind": "swarmtypes", "s": int(rng.integers(1 << 30))}
    for i in range(60 * q):
        yield {"kind": "handlers", "s": int(rng.integers(1 << 30))}
    for i in range(20 * q):
        yield {"kind": "search", "s": int(rng.integers(1 << 30))}
    yield {"kind": "abstract"}
    yield {"kind": "exports"}
    yield {"kind": "plots"}


def run(spec, mon):
    return globals()["k_" + spec["kind"]](spec, mon)


def expect(mon, exc, f, what, **detail):
    """f() must raise exc (a type or tuple); anything else refutes."""
    mon.count("rejections")
    try:
        out = f()
    except exc as e:
        mon.check(True, "")
        return e
    except W.Stop:
        mon.fail("%s: the objective was called on and on" % what, **detail)
    except Exception as e:
        mon.fail("%s raised %s instead of %s" % (what, type(e).__name__, getattr(exc, "__name__", exc)), error=str(e)[:200], **detail)
    else:
        mon.fail("%s was accepted silently" % what, result=out, **detail)
    return None


# ------------------------------------------------------------ faults in optimizers

def drop(key):
    def f(kw, conf, rng):
        if key not in kw["options"]:
            return None
        del kw["options"][key]
        if conf["opt"] == "general" and key in ("k", "p", "r"):
            # the topology is called without a required parameter
            return (KeyError, TypeError), "run"
        return KeyError, "run"
    return f


def need_bounds(kw, conf, rng):
    if "bounds" not in kw:
        d = conf["d"]
        lb = rng.uniform(-3, 0, d)
        kw["bounds"] = (lb, lb + rng.uniform(0.5, 4, d))
        kw.pop("init_pos", None)


def bad_bh(kw, conf, rng):
    if conf["opt"] == "binary":
        return None
    need_bounds(kw, conf, rng)
    kw["bh_strategy"] = pick_bad(rng, W.BH)
    return KeyError, "run"


def pick_bad(rng, good, extra=()):
    c = [b for b in BAD_NAMES + list(extra) if b not in good]
    return c[int(rng.integers(len(c)))]


def bad_vh(kw, conf, rng):
    good = ["unmodified", "invert", "zero", "adjust"]
    kw["vh_strategy"] = pick_bad(rng, good, ["nearest", "periodic", "exp_decay", "Invert"])
    return KeyError, "run"


def bad_oh(kw, conf, rng):
    if conf["opt"] == "binary":
        return None
    good = dict(kw.get("oh_strategy") or {})
    key = ["w", "c1", "c2"][int(rng.integers(3))]
    good[key] = pick_bad(rng, W.OH, ["nearest", "linear", "exp", "Random", "nonlin", "invert"])
    kw["oh_strategy"] = good
    return KeyError, "run"


def ftol_iter(kw, conf, rng):
    kw["ftol_iter"] = [0, -1, -5, 1.5, 2.0, 0.0, -0.5, float("nan"), float("inf"), 1e3, False, np.float64(3.0)][int(rng.integers(12))]
    if rng.random() < 0.5:
        kw["ftol"] = 1e-3
    return AssertionError, "construct"


def init_outside(kw, conf, rng):
    if conf["opt"] == "binary":
        n, d = conf["n"], conf["d"]
        x = rng.integers(0, 2, (n, d))
        if n * d < 3:
            return None
        x.flat[:2] = (0, 1)
        x.flat[int(rng.integers(2, n * d))] = int(W.pick(rng, [2, -1, 7]))
        kw["init_pos"] = x
        return ValueError, "construct"
    need_bounds(kw, conf, rng)
    lb, ub = (np.asarray(b, float) for b in kw["bounds"])
    n, d = conf["n"], conf["d"]
    x = rng.uniform(lb, ub, (n, d))
    x = np.clip(x, lb, ub)
    i, j = int(rng.integers(n)), int(rng.integers(d))
    if rng.random() < 0.5:
        x[i, j] = W.pick(rng, [np.nextafter(lb[j], -np.inf), lb[j] - (ub[j] - lb[j]), lb[j] - 1e9 - abs(lb[j]), -np.inf])
    else:
        x[i, j] = W.pick(rng, [np.nextafter(ub[j], np.inf), ub[j] + (ub[j] - lb[j]), ub[j] + 1e9 + abs(ub[j]), np.inf])
    kw["init_pos"] = x
    return ValueError, "construct"


def init_shape(kw, conf, rng):
    n, d = conf["n"], conf["d"]
    shape = W.pick(rng, [(n + 1, d), (n, d + 1), (n * d + 1,), (n, d, 1), (d, n) if n != d else (n + 2, d), (1, n, d), (0, d)])
    if conf["opt"] == "binary":
        x = rng.integers(0, 2, shape)
    else:
        lb, ub = (np.asarray(b, float) for b in kw["bounds"]) if "bounds" in kw else (np.zeros(d), np.ones(d))
        x = np.full(shape, float(lb.max()) if (lb.max() <= ub.min()) else 0.5)
        if "bounds" in kw and lb.max() > ub.min():
            kw.pop("bounds")
            kw.pop("bh_strategy", None)
            kw.pop("vh_strategy", None)
    kw["init_pos"] = x
    return ValueError, "construct"


def bounds_length(kw, conf, rng):
    if conf["opt"] == "binary":
        return None
    d = conf["d"]
    m = d + int(W.pick(rng, [1, 2, 3])) if (d < 3 or rng.random() < 0.5) else d - 1
    if m == 1:
        return None
    kw.pop("init_pos", None)
    kw["bounds"] = (np.zeros(m), np.ones(m))
    return ValueError, "construct"


def bounds_triple(kw, conf, rng):
    if conf["opt"] == "binary":
        return None
    kw.pop("init_pos", None)
    d = conf["d"]
    kw["bounds"] = (np.zeros(d), np.ones(d), np.ones(d)) if rng.random() < 0.5 else (np.zeros(d),)
    return ValueError, "construct"


def bounds_scalar(kw, conf, rng):
    if conf["opt"] == "binary":
        return None
    kw.pop("init_pos", None)
    kw["bounds"] = [0.1, 3, -1.0][int(rng.integers(3))]
    return TypeError, "construct"


def clamp_triple(kw, conf, rng):
    kw["velocity_clamp"] = [(0, 2, 5), [1, 3, 5], (1.0,)][int(rng.integers(3))]
    return ValueError, "construct"


def clamp_scalar(kw, conf, rng):
    kw["velocity_clamp"] = [1, 0, 0.5][int(rng.integers(3))]
    return TypeError, "construct"


def clamp_length(kw, conf, rng):
    d = conf["d"]
    if d == 1:
        return None  # broadcasts; per-dimension clamps are not documented anyway
    kw["velocity_clamp"] = (-np.ones(d + 2), np.ones(d + 2))
    return ValueError, "construct"


class Duck:
    def compute_gbest(self, swarm, **k):
        return swarm.pbest_pos[np.argmin(swarm.pbest_cost)], float(np.min(swarm.pbest_cost))

    def compute_velocity(self, swarm, *a, **k):
        return swarm.velocity

    def compute_position(self, swarm, *a, **k):
        return swarm.position


def bad_topology(kw, conf, rng):
    if conf["opt"] != "general":
        return None
    kw["topology"] = [W.TOPO["star"], "star", None, object(), 1, Topology, [W.TOPO["ring"]()], Duck(), Duck, W.TOPO["random"]][int(rng.integers(10))]
    return TypeError, "construct"


FAULTS = {"no_c1": drop("c1"), "no_c2": drop("c2"), "no_w": drop("w"), "no_k": drop("k"), "no_p": drop("p"), "no_r": drop("r"),
          "bad_bh": bad_bh, "bad_vh": bad_vh, "bad_oh": bad_oh, "ftol_iter": ftol_iter, "init_outside": init_outside, "init_shape": init_shape,
          "bounds_length": bounds_length, "bounds_triple": bounds_triple, "bounds_scalar": bounds_scalar, "clamp_triple": clamp_triple,
          "clamp_scalar": clamp_scalar, "clamp_length": clamp_length, "topology": bad_topology, "kw_missing": None, "kw_extra": None}


def klass(conf):
    return {"gbest": ps.single.GlobalBestPSO, "lbest": ps.single.LocalBestPSO, "general": ps.single.GeneralOptimizerPSO,
            "binary": ps.discrete.BinaryPSO}[conf["opt"]]


def arguments(c, seed):
    kw = dict(n_particles=c["n"], dimensions=c["d"], options=dict(c["options"]))
    if c["ftol"] is not None:
        kw.update(ftol=c["ftol"], ftol_iter=c["ftol_iter"])
    init = W.make_init(c, seed)
    if init is not None:
        kw["init_pos"] = init
    if c["clamp"] is not None:
        kw["velocity_clamp"] = W.make_clamp(c)
    if c["vh"] != "unmodified":
        kw["vh_strategy"] = c["vh"]
    if c["opt"] != "binary":
        if c["bounds"]:
            kw["bounds"] = W.make_bounds(c)
        if c["bh"]:
            kw["bh_strategy"] = c["bh"]
        if c["oh"] is not None:
            kw["oh_strategy"] = dict(c["oh"])
        if c["opt"] == "lbest":
            kw["static"] = c["static"]
        if c["opt"] == "general":
            kw["topology"] = W.TOPO[c["topo"]](static=c["static"])
    return kw


def k_fault(spec, mon):
    rng = np.random.default_rng(spec["s"])
    opt, topo = spec["opt"]
    fix = {"opt": opt}
    if topo:
        fix["topo"] = topo
    c = W.gen_conf(rng, p_ftol=0.2, **fix)
    # extras would hide a missing key
    if opt == "gbest":
        c["options"].pop("k", None), c["options"].pop("p", None)
    kw = arguments(c, spec["s"])
    iters = int(rng.integers(1, 5))
    calls = []
    okw = {}

    def f(x):
        calls.append(x.shape)
        if len(calls) > iters + 2:
            raise W.Stop()
        return (np.asarray(x, float) ** 2).sum(axis=1)

    def g(x, a, b=1.0):
        return f(x) * a + b

    obj = f
    if spec["fault"] in ("kw_missing", "kw_extra"):
        exc, when = TypeError, "run"
        obj = g
        okw = {} if spec["fault"] == "kw_missing" else {"a": 2.0, "c": 1}
        if rng.random() < 0.5 and spec["fault"] == "kw_missing":
            okw = {"b": 3.0}
    else:
        # the planted fault must be the only one: the unmodified arguments work
        r = FAULTS[spec["fault"]](kw, c, rng)
        if r is None:
            return
        exc, when = r
    mon.seen("fault", spec["fault"])
    mon.seen("fault_and_optimizer", "%s/%s/%s" % (spec["fault"], opt, topo))
    state = {}

    def go():
        state["opt"] = klass(c)(**kw)
        state["built"] = True
        v = bool(rng.random() < 0.3)
        return state["opt"].optimize(obj, iters, verbose=v, **okw)

    what = "%s with fault %s" % (opt if not topo else "%s/%s" % (opt, topo), spec["fault"])
    expect(mon, exc, go, what, arguments={k: kw[k] for k in kw if k in ("options", "bh_strategy", "vh_strategy", "oh_strategy", "ftol_iter", "topology", "init_pos", "bounds", "velocity_clamp")})
    if when == "construct":
        mon.check("built" not in state, "%s: only noticed after construction" % what)
    else:
        mon.check(len(calls) <= 1, "%s: noticed only after %d evaluations" % (what, len(calls)))


def k_valid(spec, mon):
    def each(tr, b, mon):
        c = tr.conf
        mon.count("accepted")
        if mon.check(tr.error is None and tr.result is not None and len(tr.result) == 2, "a valid configuration gave no result", error=repr(tr.error)):
            mon.check(np.shape(tr.result[1]) == (c["d"],), "a valid configuration gave a position of shape %s" % (np.shape(tr.result[1]),))
    S.run_session(spec, mon, each)


def k_edges(spec, mon):
    """Valid configurations at the edges of what is documented."""
    opt, topo = spec["opt"]
    d = 2
    n = 6
    f = lambda x: (np.asarray(x, float) ** 2).sum(axis=1)  # noqa: E731
    base = {"n_particles": n, "dimensions": d, "options": S.base_conf(opt, n=n, d=d, topo=topo)["options"]}
    alts = [{"ftol_iter": v} for v in (1, 2, 10**6)] + [{"ftol": v} for v in (-np.inf, 0, 0.0, 1e-300, 1.0, np.inf)]
    alts += [{"velocity_clamp": v} for v in (None, (0, 1), [-1, 1], (-0.5, 0.5), (np.array([-1, -2.0]), np.array([1, 2.0])), np.array([-1.0, 1.0]))]
    alts += [{"vh_strategy": v} for v in ("unmodified", "adjust")]
    zero_one = np.array([[0, 1], [1, 0], [0, 0], [1, 1], [0, 1], [1, 0]])
    if opt == "binary":
        alts += [{"init_pos": v} for v in (zero_one, zero_one.astype(float), np.zeros((n, d), int), np.ones((n, d)), zero_one.astype(bool).astype(int))]
    else:
        lb, ub = np.array([-1.0, 0.0]), np.array([1.0, 1.0])
        alts += [{"bounds": v, "bh_strategy": bh} for v in ((lb, ub), [lb, ub], (list(lb), list(ub)), np.array([lb, ub]), ((-1, 0), (1, 1)), (np.array([-1, 0]), np.array([1, 1]))) for bh in W.BH]
        alts += [{"bounds": (lb, ub), "vh_strategy": v} for v in ("unmodified", "adjust", "invert", "zero")]
        alts += [{"oh_strategy": v} for v in (None, {}, {"w": "exp_decay"}, {"c1": "lin_variation"}, {"c2": "nonlin_mod"}, {"w": "random", "c1": "random", "c2": "random"})]
        corner = np.where(zero_one > 0, ub, lb)
        spread = np.array([[-1.0, 0.0], [1.0, 1.0], [-1.0, 1.0], [1.0, 0.0], [0.25, 0.5], [0.0, 0.3]])
        alts += [{"init_pos": spread, "bounds": (lb, ub)}, {"init_pos": spread}, {"init_pos": np.asfortranarray(spread), "bounds": (lb, ub)}]
        if topo != "pyramid":
            alts += [{"init_pos": corner, "bounds": (lb, ub)}]
        alts += [{"center": 1.0}, {"center": 0.5}, {"center": np.array([0.5, 2.0])}, {"center": [1.0, 1.0]}]
        if topo is None or topo == "ring":
            pass
    if "k" in base["options"]:
        ks = (1, 2, n - 2, n - 1, n) if topo != "random" else (1, 2, n - 1)
        alts += [{"options": dict(base["options"], k=k)} for k in ks]
    if "p" in base["options"]:
        alts += [{"options": dict(base["options"], p=p)} for p in (1, 2)]
    if "r" in base["options"]:
        alts += [{"options": dict(base["options"], r=r)} for r in (0, 1)]
    alts += [{"options": dict(base["options"], extra=1, name="x")}, {"options": dict(base["options"], w=1, c1=0, c2=2)}]
    # numpy's numbers are numbers
    alts += [{"n_particles": np.int64(n), "dimensions": np.int32(d)}, {"options": {k: (np.int64(v) if k in ("k", "p", "r") else np.float64(v)) for k, v in base["options"].items()}},
             {"options": {k: (np.int32(v) if k in ("k", "p", "r") else np.float32(v)) for k, v in base["options"].items()}}]
    for alt in alts:
        for static in ((False, True) if opt in ("general", "lbest") else (False,)):
            kw = dict(base, **alt)
            kw["options"] = dict(kw["options"])
            if opt == "general":
                kw["topology"] = W.TOPO[topo](static=static)
            if opt == "lbest":
                kw["static"] = static
            mon.count("accepted")
            try:
                r = klass({"opt": opt})(**kw).optimize(f, 3, verbose=False)
            except Exception as e:
                mon.fail("valid configuration rejected: %s: %s" % (type(e).__name__, str(e)[:120]), arguments=kw)
                continue
            mon.check(len(r) == 2 and np.shape(r[1]) == (d,) and np.isfinite(r[0]), "valid configuration gave a strange result", result=r, arguments=kw)


# ------------------------------------------------------------ backend

JUNK = [0, 1.5, None, "swarm", [], (1, 2, 3), {}, {"position": 1}, object(), np.zeros((3, 2)), True, lambda: 0, Swarm]


def a_swarm(rng, n=6, d=2):
    s = P.create_swarm(n_particles=n, dimensions=d, options={"c1": 1.0, "c2": 1.0, "w": 0.5})
    s.current_cost = rng.random(n)
    s.pbest_cost = rng.random(n)
    s.best_pos = s.pbest_pos[0].copy()
    s.best_cost = float(s.pbest_cost.min())
    return s


def k_nonswarm(spec, mon):
    rng = np.random.default_rng(spec["s"])
    clamp = W.pick(rng, [None, (-1.0, 1.0)])
    bounds = W.pick(rng, [None, (np.zeros(2), np.ones(2))])
    todo = list(JUNK)
    # swarm-like objects that miss something an operation needs
    good = a_swarm(rng)
    full = {k: getattr(good, k) for k in ("position", "velocity", "n_particles", "dimensions", "options", "pbest_pos", "best_pos", "pbest_cost", "best_cost", "current_cost")}

    def without(*names):
        return types.SimpleNamespace(**{k: v for k, v in full.items() if k not in names})

    for junk in todo:
        expect(mon, AttributeError, lambda: P.compute_pbest(junk), "compute_pbest(%r)" % (junk,))
        expect(mon, AttributeError, lambda: P.compute_velocity(junk, clamp, VelocityHandler("unmodified"), bounds), "compute_velocity(%r)" % (junk,))
        expect(mon, AttributeError, lambda: P.compute_position(junk, bounds, BoundaryHandler("nearest")), "compute_position(%r)" % (junk,))
        expect(mon, AttributeError, lambda: P.compute_objective_function(junk, lambda x: x[:, 0]), "compute_objective_function(%r)" % (junk,))
        for name, T in W.TOPO.items():
            for static in (False, True):
                o = {"ring": {"p": 2, "k": 2}, "vonneumann": {"p": 2, "r": 0}, "random": {"k": 2}}.get(name, {})
                expect(mon, AttributeError, lambda: T(static=static).compute_gbest(junk, **o), "%s.compute_gbest(%r)" % (name, junk))
                expect(mon, AttributeError, lambda: T(static=static).compute_velocity(junk, clamp, VelocityHandler("unmodified"), bounds), "%s.compute_velocity(%r)" % (name, junk))
                expect(mon, AttributeError, lambda: T(static=static).compute_position(junk, bounds, BoundaryHandler("nearest")), "%s.compute_position(%r)" % (name, junk))
        mon.seen("junk", type(junk).__name__)
    expect(mon, AttributeError, lambda: P.compute_pbest(without("current_cost")), "compute_pbest without current_cost")
    expect(mon, AttributeError, lambda: P.compute_pbest(without("pbest_cost")), "compute_pbest without pbest_cost")
    expect(mon, AttributeError, lambda: P.compute_velocity(without("pbest_pos"), clamp, VelocityHandler("unmodified"), bounds), "compute_velocity without pbest_pos")
    expect(mon, AttributeError, lambda: P.compute_velocity(without("best_pos"), clamp, VelocityHandler("unmodified"), bounds), "compute_velocity without best_pos")
    expect(mon, AttributeError, lambda: P.compute_position(without("velocity"), bounds, BoundaryHandler("nearest")), "compute_position without velocity")
    for key in ("c1", "c2", "w"):
        s = a_swarm(rng)
        s.options = {k: v for k, v in s.options.items() if k != key}
        expect(mon, KeyError, lambda: P.compute_velocity(s, clamp, VelocityHandler("unmodified"), bounds), "compute_velocity without %s" % key)
        for name, T in W.TOPO.items():
            expect(mon, KeyError, lambda: T().compute_velocity(s, clamp, VelocityHandler("unmodified"), bounds), "%s.compute_velocity without %s" % (name, key))
    # missing topology parameters
    s = a_swarm(rng)
    for name, o in [("ring", {"p": 2}), ("ring", {"k": 2}), ("ring", {}), ("vonneumann", {"p": 2}), ("vonneumann", {"r": 0}), ("random", {})]:
        expect(mon, TypeError, lambda: W.TOPO[name]().compute_gbest(s, **o), "%s.compute_gbest(%s)" % (name, o))


def k_swarmtypes(spec, mon):
    rng = np.random.default_rng(spec["s"])
    n, d = int(rng.integers(1, 6)), int(rng.integers(1, 4))
    good = dict(position=rng.random((n, d)), velocity=rng.random((n, d)), n_particles=n, dimensions=d, options={"w": 1.0},
                pbest_pos=rng.random((n, d)), best_pos=rng.random(d), pbest_cost=rng.random(n), best_cost=W.pick(rng, [1.0, 3, np.inf]), current_cost=rng.random(n))
    names = list(good)
    keep = {k: good[k] for k in names if k in ("position", "velocity") or rng.random() < 0.6}
    try:
        s = Swarm(**keep)
    except Exception as e:
        mon.fail("a Swarm with attributes of the documented types is rejected: %r" % e, attributes=keep)
        return
    for k, v in keep.items():
        mon.check(getattr(s, k) is v or np.array_equal(getattr(s, k), v), "Swarm attribute %s is not what was given" % k)
    mon.check(s.n_particles == n and s.dimensions == d, "n_particles/dimensions do not follow from the position matrix", got=(s.n_particles, s.dimensions))
    if "best_cost" not in keep:
        mon.check(s.best_cost == np.inf, "default best cost is not infinite")
    if "pbest_pos" not in keep:
        mon.check(np.array_equal(s.pbest_pos, s.position), "default personal bests are not the positions")
    mon.count("accepted")
    bad = {"n_particles": ["3", 3.0, None, [n], np.zeros(1)], "dimensions": ["2", 2.0, None, (d,), np.zeros(1)],
           "options": [[("w", 1.0)], None, "w", 1.0, (1,)], "best_cost": ["1", None, [1.0], np.zeros(2), {}]}
    for k in names:
        if k in bad:
            vals = bad[k]
        else:
            a = good[k]
            vals = [a.tolist(), tuple(a.tolist()), 1.0, "x", {}] + ([None] if k != "x" else [])
        v = vals[int(rng.integers(len(vals)))]
        kw = dict(good)
        if rng.random() < 0.5:
            kw = {q: good[q] for q in names if q in ("position", "velocity", "n_particles", "dimensions", "pbest_pos", k)}
        kw[k] = v
        expect(mon, TypeError, lambda: Swarm(**kw), "Swarm(%s=%r)" % (k, v))
        mon.seen("swarm_attribute", k)


def k_handlers(spec, mon):
    rng = np.random.default_rng(spec["s"])
    n, d = int(rng.integers(1, 7)), int(rng.integers(1, 4))
    lb = rng.uniform(-3, 0, d)
    ub = lb + rng.uniform(0.5, 3, d)
    x = rng.uniform(-6, 6, (n, d))
    if rng.random() < 0.3:
        x = rng.uniform(lb, ub, (n, d))
    v = rng.normal(size=(n, d))
    clamp = W.pick(rng, [None, (-1.0, 1.0)])
    name = pick_bad(rng, W.BH, ["unmodified", "exp_decay"])
    expect(mon, KeyError, lambda: BoundaryHandler(strategy=name)(x.copy(), (lb, ub)), "BoundaryHandler(%r)" % (name,))
    name = pick_bad(rng, ["unmodified", "invert", "zero", "adjust"], ["nearest", "random"])
    expect(mon, KeyError, lambda: VelocityHandler(strategy=name)(v.copy(), clamp, position=x, bounds=(lb, ub)), "VelocityHandler(%r)" % (name,))
    key = W.pick(rng, ["w", "c1", "c2"])
    name = pick_bad(rng, W.OH, ["nearest", "linear"])
    start = {"w": 0.9, "c1": 1.5, "c2": 2.0}
    expect(mon, KeyError, lambda: OptionsHandler(strategy={key: name})(dict(start), iternow=1, itermax=10), "OptionsHandler({%r: %r})" % (key, name))
    for bh in W.BH:
        BoundaryHandler(strategy=bh)(x.copy(), (lb, ub))
        mon.count("accepted")
    for vh in ("unmodified", "invert", "zero", "adjust"):
        VelocityHandler(strategy=vh)(v.copy(), clamp, position=x, bounds=(lb, ub))
        mon.count("accepted")
    VelocityHandler(strategy="unmodified")(v.copy(), clamp)
    for o in W.OH:
        OptionsHandler(strategy={key: o})(dict(start), iternow=int(rng.integers(0, 10)), itermax=10)
        OptionsHandler(strategy={})(dict(start))
        mon.count("accepted")
    for vh in ("invert", "zero"):
        expect(mon, KeyError, lambda: VelocityHandler(strategy=vh)(v.copy(), clamp), "VelocityHandler(%s) without position and bounds" % vh)
        expect(mon, KeyError, lambda: VelocityHandler(strategy=vh)(v.copy(), clamp, position=x), "VelocityHandler(%s) without bounds" % vh)
        expect(mon, KeyError, lambda: VelocityHandler(strategy=vh)(v.copy(), clamp, bounds=(lb, ub)), "VelocityHandler(%s) without position" % vh)
    expect(mon, KeyError, lambda: VelocityHandler(strategy="adjust")(v.copy(), clamp), "VelocityHandler(adjust) without position")
    for o in ("exp_decay", "lin_variation", "nonlin_mod"):
        for kw in ({}, {"iternow": 1}, {"itermax": 10}):
            expect(mon, KeyError, lambda: OptionsHandler(strategy={key: o})(dict(start), **kw), "OptionsHandler(%s) with %s" % (o, sorted(kw)))


def k_search(spec, mon):
    rng = np.random.default_rng(spec["s"])
    options = {"c1": [0.5, 1.5], "c2": [0.5, 1.5], "w": [0.2, 0.9], "k": [1, 3], "p": 1}
    f = lambda x: (x ** 2).sum(axis=1)  # noqa: E731

    class NoOpt:
        def __init__(self, *a, **k):
            pass

    class Has(NoOpt):
        def optimize(self, *a, **k):
            return 1.0, None

    common = dict(n_particles=5, dimensions=2, options=options, objective_func=f, iters=2)
    for bad in (NoOpt, None, "GlobalBestPSO", object(), 3, dict, np.zeros(2), lambda: 0):
        expect(mon, TypeError, lambda: GridSearch(bad, **common), "GridSearch(%r)" % (bad,))
        expect(mon, TypeError, lambda: RandomSearch(bad, n_selection_iters=2, **common), "RandomSearch(%r)" % (bad,))
    for bad in (2.0, "2", None, [2], (3,), 1.5):
        expect(mon, TypeError, lambda: RandomSearch(Has, n_selection_iters=bad, **common), "RandomSearch(n_selection_iters=%r)" % (bad,))
    GridSearch(Has, **common).search()
    RandomSearch(Has, n_selection_iters=int(rng.integers(1, 4)), **common).search()
    GridSearch(ps.single.LocalBestPSO, **dict(common, options={"c1": [1.0], "c2": 1.0, "w": 0.5, "k": 2, "p": [1, 2]})).search()
    mon.count("accepted", 3)
    # a missing coefficient in the grid is not silently filled in
    for key in ("c1", "c2", "w"):
        o = {k: v for k, v in {"c1": [1.0, 0.5], "c2": 1.0, "w": [0.5]}.items() if k != key}
        expect(mon, KeyError, lambda: GridSearch(ps.single.GlobalBestPSO, **dict(common, options=o)).search(), "GridSearch without %s" % key)
    for key in ("k", "p"):
        o = {k: v for k, v in {"c1": [1.0, 0.5], "c2": 1.0, "w": [0.5], "k": 2, "p": 1}.items() if k != key}
        expect(mon, KeyError, lambda: GridSearch(ps.single.LocalBestPSO, **dict(common, options=o)).search(), "GridSearch without %s" % key)


def k_abstract(spec, mon):
    o = {"c1": 0.5, "c2": 0.5, "w": 0.5}
    expect(mon, TypeError, lambda: SwarmOptimizer(5, 2, o), "SwarmOptimizer()")
    expect(mon, TypeError, lambda: DiscreteSwarmOptimizer(5, 2, True, o), "DiscreteSwarmOptimizer()")
    expect(mon, TypeError, lambda: Topology(static=True), "Topology()")

    class NoRun(SwarmOptimizer):
        pass

    class NoRunD(DiscreteSwarmOptimizer):
        pass

    expect(mon, TypeError, lambda: NoRun(5, 2, o), "subclass of SwarmOptimizer without optimize()")
    expect(mon, TypeError, lambda: NoRunD(5, 2, True, o), "subclass of DiscreteSwarmOptimizer without optimize()")

    class Runs(SwarmOptimizer):
        def optimize(self, objective_func, iters, n_processes=None, **kw):
            return super().optimize(objective_func, iters, n_processes, **kw)

    class RunsD(DiscreteSwarmOptimizer):
        def optimize(self, objective_func, iters, n_processes=None, **kw):
            return super().optimize(objective_func, iters, n_processes, **kw)

    a = Runs(5, 2, o)
    b = RunsD(5, 2, True, o)
    mon.count("accepted", 2)
    mon.check(a.swarm.position.shape == (5, 2) and b.swarm.position.shape == (5, 2), "a complete subclass has no swarm")
    expect(mon, NotImplementedError, lambda: a.optimize(len, 3), "SwarmOptimizer.optimize()")
    expect(mon, NotImplementedError, lambda: b.optimize(len, 3), "DiscreteSwarmOptimizer.optimize()")
    for bad in (0, -1, 2.5):
        expect(mon, AssertionError, lambda: Runs(5, 2, o, ftol_iter=bad), "SwarmOptimizer(ftol_iter=%r)" % bad)
        expect(mon, AssertionError, lambda: RunsD(5, 2, True, o, ftol_iter=bad), "DiscreteSwarmOptimizer(ftol_iter=%r)" % bad)
    methods = ("compute_gbest", "compute_position", "compute_velocity")
    for m in range(3):
        for some in itertools.combinations(methods, m):
            T = type("Partial", (Topology,), {k: (lambda self, *a, **kw: None) for k in some})
            expect(mon, TypeError, lambda: T(static=False), "Topology subclass with only %s" % (some,))
    T = type("Full", (Topology,), {k: (lambda self, *a, **kw: getattr(Topology, "compute_gbest")(self, None)) for k in methods})
    t = T(static=True)
    mon.check(t.static is True and t.neighbor_idx is None, "a user topology does not get its attributes")
    expect(mon, NotImplementedError, lambda: t.compute_gbest(None), "Topology.compute_gbest()")
    for name in W.TOPO.values():
        x = name(static=False)
        mon.check(isinstance(x, Topology) and x.neighbor_idx is None, "%s is not a fresh Topology" % name.__name__)
        mon.count("accepted")


PUBLIC = {
    "pyswarms": ["single", "discrete", "cost", "__version__", "backend"],
    "pyswarms.single": ["GlobalBestPSO", "LocalBestPSO", "GeneralOptimizerPSO"],
    "pyswarms.discrete": ["BinaryPSO"],
    "pyswarms.base": ["SwarmOptimizer", "DiscreteSwarmOptimizer"],
    "pyswarms.backend": ["create_swarm", "generate_swarm", "generate_discrete_swarm", "generate_velocity", "compute_pbest", "compute_velocity",
                         "compute_position", "compute_objective_function", "BoundaryHandler", "VelocityHandler", "OptionsHandler", "Swarm"],
    "pyswarms.backend.topology": ["Topology", "Star", "Ring", "Pyramid", "Random", "VonNeumann"],
    "pyswarms.backend.handlers": ["BoundaryHandler", "VelocityHandler", "OptionsHandler", "HandlerMixin"],
    "pyswarms.utils": ["Reporter"],
    "pyswarms.utils.decorators": ["cost"],
    "pyswarms.utils.reporter": ["Reporter"],
    "pyswarms.utils.plotters": ["plot_cost_history", "plot_contour", "plot_surface"],
    "pyswarms.utils.plotters.formatters": ["Designer", "Animator", "Mesher"],
    "pyswarms.utils.search": ["GridSearch", "RandomSearch"],
    "pyswarms.utils.functions.single_obj": ["ackley", "beale", "booth", "bukin6", "crossintray", "easom", "eggholder", "goldstein", "himmelblau", "holdertable",
                                            "levi", "matyas", "rastrigin", "rosenbrock", "schaffer2", "sphere", "threehump"],
}


def k_exports(spec, mon):
    mods = ["pyswarms"] + [m.name for m in pkgutil.walk_packages(ps.__path__, "pyswarms.")]
    for m in mods:
        if ".tests" in m:
            continue
        try:
            mod = importlib.import_module(m)
        except Exception as e:
            mon.fail("module %s cannot be imported: %r" % (m, e))
            continue
        mon.count("modules")
        names = getattr(mod, "__all__", None)
        if names is not None:
            mon.check(all(isinstance(x, str) for x in names) and len(set(names)) == len(names), "__all__ of %s is malformed" % m, names=names)
            scope = {}
            try:
                exec("from %s import *" % m, scope)
            except Exception as e:
                mon.fail("from %s import * fails: %r" % (m, e))
            for x in names:
                mon.check(x in scope, "%s exports %r, which does not exist" % (m, x))
                mon.count("exported_names")
    for m, names in PUBLIC.items():
        mod = importlib.import_module(m)
        for x in names:
            mon.check(hasattr(mod, x), "documented name %s.%s does not exist" % (m, x))
            mon.count("documented_names")
    for bh, cls in ((W.BH, BoundaryHandler), (["unmodified", "invert", "zero", "adjust"], VelocityHandler)):
        mon.check(set(bh) <= set(cls(strategy=bh[0]).strategies), "%s misses a documented strategy" % cls.__name__)


def k_plots(spec, mon):
    from pyswarms.utils.plotters import plot_contour, plot_cost_history, plot_surface
    import matplotlib.pyplot as plt

    for bad in (2, 43.14, -1):
        expect(mon, TypeError, lambda: plot_cost_history(bad), "plot_cost_history(%r)" % bad)
        expect(mon, TypeError, lambda: plot_contour(bad), "plot_contour(%r)" % bad)
        expect(mon, TypeError, lambda: plot_surface(bad), "plot_surface(%r)" % bad)
    plt.close("all")
