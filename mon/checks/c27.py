"""C27: the extension points. User-written topologies and optimizers record everything the package gives
them and hand back values of their own; monitors judge both directions."""
import numpy as np

import pyswarms as ps
from pyswarms.backend import operators as op
from pyswarms.backend.handlers import BoundaryHandler, VelocityHandler
from pyswarms.backend.swarms import Swarm
from pyswarms.backend.topology import Pyramid, Random, Ring, Star, Topology, VonNeumann
from pyswarms.base import DiscreteSwarmOptimizer, SwarmOptimizer

from .. import monitors as M
from .. import oracle as O
from .. import sessions as S
from .. import work as W

EXTRA = [{}, {}, {"radius": 2}, {"k": 1, "name": "mine"}, {"p": 7, "r": "r", "weights": [1, 2]}, {"static": True, "topology": 3}]


def cases(tier, seed):
    rng = S.rng_for("C27", seed, tier)
    q = 1 if tier == "quick" else 12
    for k in range(450 * q):
        s = S.gen_session(rng, max_iters=12, p_oh=0.3, p_ftol=0.2, opt="general", topo="star")
        s["kind"] = "topology"
        s["mode"] = ["honest", "scripted", "mixed", "inplace"][k % 4]
        s["extra"] = W.pick(rng, EXTRA)
        yield s
    for k, s in enumerate(S.extremes(tier, light=True) + S.extremes(tier, light=True, bounds=lambda d: [[-1.0] * d, [1.5] * d], bh="nearest", vh="invert", clamp=[-0.4, 0.7])):
        if s["conf"]["topo"] == "star":
            for mode in ("honest", "scripted", "inplace"):
                yield dict(s, kind="topology", mode=mode, extra=EXTRA[k % len(EXTRA)])
    for k in range(12 * q):
        s = S.gen_session(rng, max_iters=4, opt="general", topo="star", n=int(rng.integers(2, 9)))
        s["calls"] = [S.row("sphere", 3, params={"shift": 0.4}), S.row("rastrigin", 2)]
        s.update(kind="topology", mode=["honest", "scripted", "inplace"][k % 3], extra=W.pick(rng, EXTRA), procs=1 + k % 3)
        yield s
    for k in range(300 * q):
        c = W.gen_conf(rng, opt="gbest")
        yield {"kind": "base", "conf": c, "T": int(rng.integers(1, 9))}
    for k in range(200 * q):
        n, d = int(rng.integers(1, 30)), int(rng.integers(1, 20))
        yield {"kind": "discrete", "n": n, "d": d, "binary": bool(k % 2), "clamp": W.gen_clamp(rng, d, True) if k % 3 else None, "init": bool(k % 5 == 0)}
    for topo in ("star", "ring", "vonneumann", "pyramid", "random"):
        for how in ("gbest", "velocity", "position"):
            for j in range(4 * q):
                yield {"kind": "override", "topo": topo, "how": how, "j": j}


def run(spec, mon):
    return globals()["k_" + spec["kind"]](spec, mon)


# ------------------------------------------------------------------ a user's topology
class Mine(Topology):
    """Particles follow the best of themselves and their two index neighbours. Records what it sees."""

    def __init__(self, mode, seed, watch):
        super().__init__(static=False)
        self.mode, self.rng, self.watch = mode, np.random.default_rng(seed), watch

    def compute_gbest(self, swarm, **options):
        n = swarm.n_particles
        i = np.arange(n)
        nb = np.stack([i, (i + 1) % n, (i - 1) % n], axis=1)
        best = nb[i, swarm.pbest_cost[nb].argmin(axis=1)]
        pos, cost = swarm.pbest_pos[best].copy(), np.min(swarm.pbest_cost)
        self.watch("gbest", swarm, dict(options=dict(options)), (pos, cost))
        return pos, cost

    def compute_velocity(self, swarm, clamp=None, vh=None, bounds=None):
        if self.mode == "scripted" or (self.mode == "mixed" and self.rng.random() < 0.5):
            v = self.rng.normal(size=swarm.position.shape)
        else:
            v = op.compute_velocity(swarm, clamp, vh, bounds)
        if self.mode == "inplace" and swarm.velocity.dtype == float:
            swarm.velocity[...] = v
            v = swarm.velocity
        self.watch("velocity", swarm, dict(clamp=clamp, vh=vh, bounds=bounds), v)
        return v

    def compute_position(self, swarm, bounds=None, bh=None):
        if self.mode == "scripted" or (self.mode == "mixed" and self.rng.random() < 0.5):
            x = self.rng.normal(size=swarm.position.shape)
        elif self.mode != "inplace" or swarm.position.dtype != float:
            x = op.compute_position(swarm, bounds, bh)
        if self.mode == "inplace" and swarm.position.dtype == float:
            swarm.position += swarm.velocity
            x = swarm.position if bounds is None else bh(swarm.position, bounds)
        self.watch("position", swarm, dict(bh=bh, bounds=bounds), x)
        return x


def same(a, b):
    return np.array_equal(np.asarray(a, dtype=float), np.asarray(b, dtype=float), equal_nan=True)


def k_topology(spec, mon):
    c = spec["conf"]
    np.random.seed(spec["seed"] % 2**32)
    st = {"opt": None, "rec": None, "log": [], "bad": False}
    b = W.Built()
    b.conf, b.options = c, dict(c["options"], **spec["extra"])
    b.bounds, b.clamp, b.init = W.make_bounds(c), W.make_clamp(c), W.make_init(c, spec["seed"])
    want = dict(b.options)
    init0 = None if b.init is None else np.array(b.init, copy=True)

    def watch(what, swarm, args, out):
        opt, log = st["opt"], st["log"]
        mon.count("topology_calls")
        mon.check(isinstance(swarm, Swarm) and swarm is opt.swarm, "the topology is given something other than the optimizer's swarm", what=what)
        last = log[-1][0] if log else None
        if what == "gbest":
            mon.check(last in (None, "position"), "compute_gbest is called out of order", after=last)
            mon.check(args["options"] == want, "compute_gbest does not get exactly the user's options", got=args["options"], want=want)
            if st["rec"] is not None:
                calls = st["rec"].calls
                if mon.check(bool(calls) and len(calls) == st["t"] + 1, "compute_gbest is not called once after every evaluation", evaluations=len(calls), calls=st["t"]):
                    st["t"] += 1
                    mon.check(same(swarm.position, calls[-1].x), "compute_gbest sees positions other than those just evaluated")
                    mon.check(same(swarm.current_cost, calls[-1].y), "compute_gbest sees costs other than those just computed", got=swarm.current_cost, want=calls[-1].y)
                    pc, when = O.running([k.y for k in calls], c["n"])[-1]
                    mon.check(same(swarm.pbest_cost, pc), "compute_gbest sees outdated personal best costs", got=swarm.pbest_cost, want=pc)
                    for i in range(c["n"]):
                        if when[i] >= 0 and not mon.check(same(swarm.pbest_pos[i], calls[when[i]].x[i]), "compute_gbest sees outdated personal best positions", particle=i):
                            break
        elif what == "velocity":
            if mon.check(last == "gbest", "compute_velocity is called out of order", after=last):
                p, cost = log[-1][1]
                mon.check(same(swarm.best_pos, p) and same(swarm.best_cost, cost), "the topology's own best is not what the move uses")
            mon.check(args["clamp"] is b.clamp or _eq(args["clamp"], b.clamp), "compute_velocity gets another clamp", got=args["clamp"])
            mon.check(_eq(args["bounds"], b.bounds), "compute_velocity gets other bounds", got=args["bounds"])
            mon.check(isinstance(args["vh"], VelocityHandler) and args["vh"].strategy == c["vh"], "compute_velocity gets another handler")
            mon.check(set(swarm.options) == set(want) and all(_eq(swarm.options[k], want[k]) for k in want if not (c["oh"] and k in c["oh"])), "the swarm's options are not the user's", got=swarm.options)
        else:
            if mon.check(last == "velocity", "compute_position is called out of order", after=last):
                mon.check(same(swarm.velocity, log[-1][1]), "the topology's velocities are not what the move uses")
            mon.check(_eq(args["bounds"], b.bounds), "compute_position gets other bounds", got=args["bounds"])
            mon.check(isinstance(args["bh"], BoundaryHandler) and args["bh"].strategy == c["bh"], "compute_position gets another handler")
        log.append((what, out if what == "gbest" else np.array(out, copy=True)))

    kw = dict(n_particles=c["n"], dimensions=c["d"], options=b.options, topology=Mine(spec["mode"], spec["seed"], watch), vh_strategy=c["vh"], bh_strategy=c["bh"])
    for k, v in (("bounds", b.bounds), ("velocity_clamp", b.clamp), ("init_pos", b.init), ("oh_strategy", c["oh"])):
        if v is not None:
            kw[k] = v
    if c["ftol"] is not None:
        kw.update(ftol=c["ftol"], ftol_iter=c["ftol_iter"])
    b.opt = st["opt"] = ps.single.GeneralOptimizerPSO(**kw)
    mon.check(b.opt.top is kw["topology"], "the optimizer does not use the given topology object")
    b.top = None
    b.static_x = b.stale_pb = None
    for q, call in enumerate(spec["calls"]):
        if call.get("reset"):
            b.opt.reset()
        x_next = np.array(b.opt.swarm.position, copy=True)
        st["log"], st["t"], st["rec"] = [], 0, None
        if spec.get("procs"):
            f = W.RowObj(call["obj"]["row"], call["obj"].get("params"))
            cost, pos = b.opt.optimize(f, call["iters"], n_processes=spec["procs"], verbose=False)
            T = call["iters"]
            X = [x_next] + [o for w, o in st["log"] if w == "position"][: T - 1]
            C = [f.value(np.asarray(x, float)) for x in X]
            mon.check(len(b.opt.pos_history) >= T and all(same(a, e) for a, e in zip(b.opt.pos_history[-T:], X)), "a parallel run with a user's topology evaluates other positions")
            mon.check(float(cost) == np.nanmin(C), "a parallel run with a user's topology returns another cost")
            mon.count("parallel_runs")
            continue

        def hook(rec, k):
            st["rec"] = rec
            pos = [o for w, o in st["log"] if w == "position"]
            mon.check(same(k.x, pos[-1] if pos else x_next), "the evaluated positions are not those the topology computed", t=k.t)
            mon.count("evaluations")

        tr = W.do_call(b, call, spec["seed"] + q, hook=hook)
        vels = [o for w, o in st["log"] if w == "velocity"]
        for t in range(1, len(tr.X)):
            if not mon.check(same(tr.V[t], vels[t - 1]), "the recorded velocity is not the one the topology computed", t=t):
                break
        best = [o for w, o in st["log"] if w == "gbest"]
        mon.check(len(best) == len(tr.X), "compute_gbest is not called once per iteration", calls=len(best), iterations=len(tr.X))
        M.soundness(tr, b.opt, mon)
        M.bookkeeping(tr, b.opt, mon)
        if b.bounds is not None and spec["mode"] in ("honest", "inplace") and c["init"] is None:
            lb, ub = (np.asarray(v, float) for v in b.bounds)
            for x in tr.X:
                if not np.isfinite(np.asarray(x)).all():
                    break
                mon.check(bool(((x >= lb) & (x <= ub)).all()), "a user's topology using the given handler leaves the bounds")
        mon.check(init0 is None or same(b.init, init0), "the user's initial positions are moved", got=b.init, want=init0)
        for h in ("pos_history", "velocity_history"):
            last = getattr(b.opt, h)[-1]
            mon.check(not np.shares_memory(last, getattr(b.opt.swarm, "position" if h[0] == "p" else "velocity")), h + ": a recorded entry is the swarm's own array")
        mon.count("runs")
        mon.seen("configurations", "%s/%s/%s/%s/%s" % (spec["mode"], c["bh"], c["vh"], bool(c["oh"]), sorted(spec["extra"])))


def _eq(a, b):
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(_eq(x, y) for x, y in zip(a, b))
    return bool(np.all(np.asarray(a) == np.asarray(b)))


# ------------------------------------------------------------------ built-in topologies with one method replaced
BASES = {"star": Star, "ring": Ring, "vonneumann": VonNeumann, "pyramid": Pyramid, "random": Random}


def k_override(spec, mon):
    base, how = BASES[spec["topo"]], spec["how"]
    g = np.random.default_rng(spec["seed"])
    n, d = int(g.integers(5, 12)), int(g.integers(2, 4))
    given = []

    def make(self, shape):
        given.append(g.normal(size=shape))
        return given[-1]

    if how == "gbest":
        def compute_gbest(self, swarm, **kw):
            pos, cost = base.compute_gbest(self, swarm, **kw)
            given.append(cost)
            return np.tile(swarm.pbest_pos[swarm.pbest_cost.argmax()], (n, 1)), cost  # follow the worst
        body = {"compute_gbest": compute_gbest}
    elif how == "velocity":
        body = {"compute_velocity": lambda self, swarm, clamp=None, vh=None, bounds=None: make(self, swarm.position.shape)}
    else:
        body = {"compute_position": lambda self, swarm, bounds=None, bh=None: make(self, swarm.position.shape)}
    top = type("My" + base.__name__, (base,), body)(static=bool(spec["j"] % 2))
    o = {"c1": 0.0, "c2": 1.0, "w": 0.0}
    if spec["topo"] == "ring":
        o.update(k=2, p=2)
    if spec["topo"] == "vonneumann":
        o.update(r=0, p=2)
    if spec["topo"] == "random":
        o.update(k=2)
    opt = ps.single.GeneralOptimizerPSO(n, d, o, topology=top)
    X, PC, PX = [], [], []

    def f(x):
        X.append(np.array(x, copy=True))
        return ((x - 0.1) ** 2).sum(axis=1)

    T = 6
    opt.optimize(f, T, verbose=False)
    mon.check(len(given) >= T - 1, "an overridden %s is not called in every iteration" % how, calls=len(given))
    V = [np.asarray(v) for v in opt.velocity_history]
    pb, pc = X[0].copy(), ((X[0] - 0.1) ** 2).sum(axis=1)
    for t in range(1, T):
        if how == "velocity":
            ok = same(V[t], given[t - 1]) and np.allclose(X[t], X[t - 1] + given[t - 1], atol=1e-12)
        elif how == "position":
            ok = same(X[t], given[t - 1])
        else:
            w = pb[pc.argmax()]
            pull = w - X[t - 1]
            ok = bool(((V[t] * np.sign(pull) >= -1e-12) & (np.abs(V[t]) <= np.abs(pull) + 1e-12)).all()) and bool(np.any(np.abs(V[t]) > 0) or np.all(pull == 0))
        if not mon.check(ok, "the result of an overridden compute_%s is not used" % how, topo=spec["topo"], t=t):
            break
        cc = ((X[t] - 0.1) ** 2).sum(axis=1)
        m = cc < pc
        pb[m], pc[m] = X[t][m], cc[m]
    mon.count("overridden_runs")


# ------------------------------------------------------------------ a user's optimizer on the base classes
class MyOptimizer(SwarmOptimizer):
    """The documented loop on top of the base class."""

    def __init__(self, n_particles, dimensions, options, **kw):
        super().__init__(n_particles, dimensions, options, **kw)
        self.top = Star()
        self.bh, self.vh = BoundaryHandler("nearest"), VelocityHandler("unmodified")

    def optimize(self, objective_func, iters, n_processes=None, **kwargs):
        s = self.swarm
        s.pbest_cost = np.full(s.n_particles, np.inf)
        s.best_cost, s.best_pos = np.inf, np.array([])
        for _ in range(iters):
            s.current_cost = op.compute_objective_function(s, objective_func, pool=None, **kwargs)
            s.pbest_pos, s.pbest_cost = op.compute_pbest(s)
            s.best_pos, s.best_cost = self.top.compute_gbest(s)
            self.cost_history.append(s.best_cost)
            self.pos_history.append(s.position)
            s.velocity = self.top.compute_velocity(s, self.velocity_clamp, self.vh, self.bounds)
            s.position = self.top.compute_position(s, self.bounds, self.bh)
        return s.best_cost, s.best_pos


NAMES = ["cost_history", "mean_pbest_history", "mean_neighbor_history", "pos_history", "velocity_history"]


def k_base(spec, mon):
    c, T = spec["conf"], spec["T"]
    np.random.seed(spec["seed"] % 2**32)
    bounds, clamp, init = W.make_bounds(c), W.make_clamp(c), W.make_init(c, spec["seed"])
    o = dict(c["options"], mine=[1])
    kw = {}
    for k, v in (("bounds", bounds), ("velocity_clamp", clamp), ("init_pos", init)):
        if v is not None:
            kw[k] = v
    if spec["seed"] % 3 == 0 and init is None and bounds is None:
        kw["center"] = 2.5
    if spec["seed"] % 4 == 0:
        kw.update(ftol=1e-3, ftol_iter=7)
    opt = MyOptimizer(c["n"], c["d"], o, **kw)
    want = dict(n_particles=c["n"], dimensions=c["d"], bounds=bounds, velocity_clamp=clamp, center=kw.get("center", 1.0), ftol=kw.get("ftol", -np.inf), ftol_iter=kw.get("ftol_iter", 1), init_pos=init)
    for k, v in want.items():
        mon.check(_eq(getattr(opt, k), v), "the base class does not keep the user's %s" % k, got=getattr(opt, k), want=v)
    mon.check(opt.options == o and tuple(opt.swarm_size) == (c["n"], c["d"]), "the base class does not keep the user's options or the swarm's size")

    def fresh(when):
        s = opt.swarm
        mon.check(isinstance(s, Swarm) and np.shape(s.position) == (c["n"], c["d"]) and np.shape(s.velocity) == (c["n"], c["d"]), when + ": the swarm has another shape")
        mon.check(all(list(getattr(opt, h)) == [] for h in NAMES), when + ": histories are not empty")
        mon.check(all(s.options[k] == o[k] for k in o), when + ": the swarm does not have the user's options", got=s.options)
        x = np.asarray(s.position, float)
        if init is not None:
            mon.check(same(x, init), when + ": positions are not the initial ones")
        elif bounds is not None:
            mon.check(bool(((x >= np.asarray(bounds[0], float)) & (x <= np.asarray(bounds[1], float))).all()), when + ": positions out of bounds")
        else:
            mon.check(bool(((x >= 0) & (x <= kw.get("center", 1.0))).all()), when + ": default positions outside of [0, center]")
        lo, hi = (0, 1) if clamp is None else (np.asarray(v, float) for v in clamp)
        v = np.asarray(s.velocity)
        mon.check(bool(((v >= lo) & (v <= hi)).all()), when + ": velocities outside of the clamp")

    fresh("new")
    X, C = [], []

    def f(x, a=0.0):
        X.append(np.array(x, dtype=float))
        C.append(((X[-1] - a) ** 2).sum(axis=1))
        return C[-1].copy()

    for rep in range(2):
        X.clear()
        C.clear()
        cost, pos = opt.optimize(f, T, a=0.25)
        mon.check(len(X) == T and len(opt.cost_history) == T, "a user's loop: wrong number of iterations")
        mon.check(float(cost) == np.min(C) and any(same(x[i], pos) for x, cc in zip(X, C) for i in np.nonzero(cc == np.min(C))[0]), "a user's loop returns something that was not evaluated")
        mon.check(all(same(a, b) for a, b in zip(opt.pos_history, X)), "a user's loop: recorded positions changed")
        mon.count("runs")
        opt.reset()
        fresh("after reset()")


class MyDiscrete(DiscreteSwarmOptimizer):
    def optimize(self, objective_func, iters, n_processes=None, **kwargs):
        return objective_func(self.swarm.position, **kwargs).min(), None


def k_discrete(spec, mon):
    n, d = spec["n"], spec["d"]
    np.random.seed(spec["seed"] % 2**32)
    o = {"c1": 0.3, "c2": 0.4, "w": 0.5}
    kw = {}
    if spec["clamp"]:
        kw["velocity_clamp"] = tuple(spec["clamp"])
    init = None
    if spec["init"]:
        init = np.random.randint(0, 2, (n, d)) if spec["binary"] else np.argsort(np.random.random_sample((n, d)), axis=1)
        kw["init_pos"] = init
    opt = MyDiscrete(n, d, spec["binary"], o, **kw)
    stop = {"ftol": 1e-3, "ftol_iter": 4} if spec["seed"] % 3 == 0 else {}
    if stop:
        opt = MyDiscrete(n, d, spec["binary"], o, **kw, **stop)
    want = dict(n_particles=n, dimensions=d, binary=spec["binary"], velocity_clamp=kw.get("velocity_clamp"), init_pos=init, ftol=stop.get("ftol", -np.inf), ftol_iter=stop.get("ftol_iter", 1), options=o)
    for k, v in want.items():
        mon.check(_eq(getattr(opt, k), v), "the discrete base class does not keep the user's %s" % k, got=getattr(opt, k), want=v)
    mon.check(tuple(opt.swarm_size) == (n, d), "the discrete base class has another swarm size")
    for rep in range(3):
        x, v = np.asarray(opt.swarm.position), np.asarray(opt.swarm.velocity)
        mon.check(x.shape == (n, d) and v.shape == (n, d), "discrete base: wrong shapes")
        if init is not None:
            mon.check(same(x, init), "discrete base: positions are not the initial ones")
        elif spec["binary"]:
            mon.check(bool(np.isin(x, (0, 1)).all()), "discrete base: binary swarm has other values", got=np.unique(x)[:5])
        else:
            mon.check(bool((np.sort(x, axis=1) == np.arange(d)).all()), "discrete base: positions are no permutations", got=x[:2])
        lo, hi = (0, 1) if not spec["clamp"] else spec["clamp"]
        mon.check(bool(((v >= lo) & (v <= hi)).all()), "discrete base: velocities outside of the clamp")
        mon.check(opt.swarm.options["w"] == 0.5 and all(list(getattr(opt, h)) == [] for h in NAMES), "discrete base: options or histories are wrong")
        opt.reset()
        mon.count("discrete_swarms")
