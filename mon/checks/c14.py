"""C14: reproducible and isolated runs. Oracles: bit-equality with an undisturbed twin, deep copies of
all user arguments, and the behavioural monitors per optimizer in interleaved and threaded runs."""
import contextlib
import copy
import json
import logging
import os
import subprocess
import sys
import threading

import numpy as np

import pyswarms as ps
import pyswarms.backend as P
from pyswarms.backend.handlers import BoundaryHandler, OptionsHandler, VelocityHandler
from pyswarms.backend.swarms import Swarm

from .. import core, env
from .. import monitors as M
from .. import sessions as S
from .. import work as W
from .c13 import same_state, state


def cases(tier, seed):
    rng = S.rng_for("C14", seed, tier)
    quick = tier == "quick"
    i = 0
    for opt, topo in S.ALL_KINDS:
        for kind in ("pair", "nested", "shared", "interleaved"):
            for v in range(3):
                i += 1
                c = S.base_conf(opt, n=6 + v, d=2 + v % 2, topo=topo, init=[None, "float", "int"][v])
                if opt != "binary" and v:
                    c.update(bounds=[[-1.0] * c["d"], [1.5] * c["d"]], bh=W.BH[i % 6], vh=["invert", "zero", "unmodified"][i % 3],
                             oh={"w": "random", "c1": "exp_decay"} if v == 2 else None, clamp=[-0.5, 0.6] if i % 2 else None)
                if v == 1:
                    c["options"] = dict(c["options"], c1=2, c2=1, w=0 if i % 2 else 1)
                yield {"kind": kind, "seed": i, "conf": c, "calls": [S.row("rastrigin", 5, params={"shift": 0.2}), S.row("sphere", 4)]}
    for k, s in enumerate(S.extremes(tier, light=True) + S.extremes(tier, light=True, bounds=lambda d: [[-1.0] * d, [1.5] * d], bh="random", clamp=[-0.4, 0.7])):
        yield dict(s, kind=["pair", "nested", "shared"][k % 3] if len(s["calls"]) < 10 else "pair", seed=900 + k)
    for k in range(6 if quick else 40):
        yield {"kind": "threads", "seed": 50 + k, "confs": [W.gen_conf(rng, p_oh=0.3, n=W.pick(rng, [4, 6, 9]), d=2) for _ in range(5)], "T": 25}
    for k in range(8 if quick else 16):
        yield {"kind": "process", "confs": [W.gen_conf(rng, n=W.pick(rng, [3, 5, 8]), p_oh=0.4) for _ in range(5)]}
    for k, what in enumerate(["swarm", "create_swarm", "create_swarm_explicit", "boundary", "velocity", "options", "topologies", "designer", "mesher", "animator",
                              "histories", "reporter", "search", "plot_args", "gen_args", "oh_args"]):
        for r in range(3):
            yield {"kind": "defaults", "seed": 100 * k + r, "what": what}
    for k in range(900 if quick else 10000):
        s = S.gen_session(rng, max_iters=21, p_oh=0.3, p_ftol=0.15)
        s["conf"]["n"] = s["conf"]["n"]
        s["kind"] = W.pick(rng, ["pair", "pair", "nested", "shared", "interleaved"])
        yield s


def run(spec, mon):
    return globals()["k_" + spec["kind"]](spec, mon)


def others(seed, mon, kinds=2):
    """Other optimizers living in the same process; leaves the random state as it was."""
    keep = np.random.get_state()
    g = np.random.default_rng([seed, 5])
    alive = []
    for _ in range(kinds):
        opt, topo = S.ALL_KINDS[int(g.integers(len(S.ALL_KINDS)))]
        c = S.base_conf(opt, n=7, d=3, topo=topo, options={"c1": 2.1, "c2": 0.3, "w": 0.2})
        if opt != "binary":
            c.update(bounds=[[-3.0] * 3, [-2.0, 5.0, 9.0]], bh=W.BH[int(g.integers(6))], vh=["invert", "zero", "unmodified"][int(g.integers(3))],
                     clamp=[-0.2, 0.1], oh={"w": "lin_variation", "c2": "random"})
        b = W.build(c, seed, record_topo=False)
        b.opt.optimize(W.RowObj("weird"), 4, verbose=False)
        if g.random() < 0.3:
            b.opt.reset()
        alive.append(b)
        mon.count("disturbing_runs")
    np.random.set_state(keep)
    return alive


def typed(v):
    """Value, types and number types of a nested argument."""
    if isinstance(v, np.ndarray):
        return ("array", str(v.dtype), v.shape, v.tobytes())
    if isinstance(v, dict):
        return ("dict", [(k, typed(x)) for k, x in v.items()])
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [typed(x) for x in v])
    return (type(v).__name__, repr(v))


def unmodified(b, mon):
    o, bo, cl, ini = b.keep
    same = typed(b.options) == typed(o) and typed(b.bounds) == typed(bo) and typed(b.clamp) == typed(cl)
    same = same and (ini is None or (np.array_equal(b.init, ini) and b.init.dtype == ini.dtype))
    same = same and list(b.options) == list(o)
    mon.check(same, "user arguments were modified", options=(b.options, o), bounds=(b.bounds, bo), clamp=(b.clamp, cl), init=(b.init, ini))
    mon.count("argument_sets")


def build(c, s):
    b = W.build(c, s, record_topo=False)
    return b


def solo(spec, verbose=False):
    """The undisturbed run: (results, recorded state)."""
    c, s = spec["conf"], spec["seed"] % 2**32
    np.random.seed(s)
    b = build(c, s)
    out = []
    for i, call in enumerate(spec["calls"]):
        if call.get("reset"):
            b.opt.reset()
        tr = W.do_call(b, call, s + i, verbose=verbose)
        out.append(res(tr))
    return out, state(b.opt), b


def res(tr):
    if tr.result is None:
        return ("error", repr(tr.error))
    return (np.array(tr.result[0]), np.array(tr.result[1]))


def compare(mon, want, got, what, spec):
    ok = len(want[0]) == len(got[0]) and all(len(x) == len(y) and all(np.array_equal(p, q, equal_nan=np.asarray(p).dtype.kind == "f") for p, q in zip(x, y)) for x, y in zip(want[0], got[0]))
    mon.check(ok, what + ": other result than the undisturbed run", want=want[0], got=got[0])
    msg = same_state(want[1], got[1])
    mon.check(msg is None, what + ": other histories than the undisturbed run", why=msg)
    mon.count("twins")


@contextlib.contextmanager
def logging_as(k, mon):
    """Logging configurations a user may have around a run."""
    root, lib = logging.getLogger(), logging.getLogger("pyswarms")
    keep = root.level, lib.level, logging.root.manager.disable, list(root.handlers)
    try:
        if k == 1:
            root.setLevel(logging.DEBUG)
            root.addHandler(logging.NullHandler())
            logging.disable(logging.NOTSET)
        elif k == 2:
            lib.setLevel(logging.ERROR)
        elif k == 3:
            logging.disable(logging.CRITICAL)
        elif k == 4:
            lib.setLevel(logging.DEBUG)
            logging.disable(logging.NOTSET)
        mon.seen("logging", k)
        yield
    finally:
        root.setLevel(keep[0])
        lib.setLevel(keep[1])
        logging.disable(keep[2])
        root.handlers[:] = keep[3]


def k_pair(spec, mon):
    c, s = spec["conf"], spec["seed"] % 2**32
    want = solo(spec, verbose=False)
    kept = copy.deepcopy(want[:2])
    with logging_as(s % 5, mon):
        again = solo(spec, verbose=True)
    compare(mon, want, again, "verbose twin", spec)
    with logging_as((s // 5) % 5, mon):
        third = solo(spec, verbose=False)
    compare(mon, want, third, "twin under another logging configuration", spec)
    pre = others(s, mon)
    np.random.seed(s)
    b = build(c, s)
    more = others(s + 1, mon, 1)
    out = []
    for i, call in enumerate(spec["calls"]):
        if call.get("reset"):
            b.opt.reset()
        tr = W.do_call(b, call, s + i, verbose=bool((s + i) % 2))
        out.append(res(tr))
        more += others(s + 2 + i, mon, 1)
    compare(mon, want, (out, state(b.opt)), "twin among other optimizers", spec)
    others(s + 9, mon, 1)
    compare(mon, kept, want, "after later runs of other optimizers", spec)
    for q in pre + more + [b, want[2], again[2]]:
        unmodified(q, mon)
    if b.init is not None and b.init.flags.writeable:
        # the optimizer holds its own copy of what it moves
        mon.check(not any(np.shares_memory(b.init, h) for h in b.opt.pos_history[1:]), "later positions alias the user's initial positions")


def k_nested(spec, mon):
    want = solo(spec)
    c, s = spec["conf"], spec["seed"] % 2**32
    np.random.seed(s)
    b = build(c, s)
    out = []
    keep = []

    def hook(rec, call):
        if call.t % 3 == 0 and len(keep) < 6:
            keep.extend(others(s + call.t, mon, 1))
            mon.count("nested_runs")

    for i, call in enumerate(spec["calls"]):
        if call.get("reset"):
            b.opt.reset()
        out.append(res(W.do_call(b, call, s + i, hook=hook)))
    compare(mon, want, (out, state(b.opt)), "twin with other optimizers run inside of its objective", spec)
    unmodified(b, mon)


def k_shared(spec, mon):
    """Two optimizers that were given the same objects."""
    c, s = spec["conf"], spec["seed"] % 2**32
    want = solo(spec)
    np.random.seed(s)
    b = build(c, s)
    keep = np.random.get_state()
    kw = dict(n_particles=c["n"], dimensions=c["d"], options=b.options)
    if b.clamp is not None:
        kw["velocity_clamp"] = b.clamp
    if b.init is not None:
        kw["init_pos"] = b.init
    if c["vh"] != "unmodified":
        kw["vh_strategy"] = c["vh"]
    if c["opt"] == "binary":
        twin = ps.discrete.BinaryPSO(**kw)
    else:
        if b.bounds is not None:
            kw["bounds"] = b.bounds
        if c["oh"] is not None:
            kw["oh_strategy"] = dict(c["oh"])
        kw["bh_strategy"] = c["bh"]
        cls = {"gbest": ps.single.GlobalBestPSO, "lbest": ps.single.LocalBestPSO, "general": ps.single.GeneralOptimizerPSO}[c["opt"]]
        if c["opt"] == "general":
            # a shared topology may keep static neighbourhoods, which is documented
            kw["topology"] = b.top if not c["static"] and c["topo"] != "vonneumann" else W.TOPO[c["topo"]](static=c["static"])
        twin = cls(**kw)
    f = W.RowObj("weird")
    twin.optimize(f, 3, verbose=False)
    np.random.set_state(keep)
    out = []
    for i, call in enumerate(spec["calls"]):
        if call.get("reset"):
            b.opt.reset()
        out.append(res(W.do_call(b, call, s + i)))
        keep = np.random.get_state()
        twin.optimize(f, 2, verbose=False)
        if i % 2:
            twin.reset()
        np.random.set_state(keep)
    compare(mon, want, (out, state(b.opt)), "twin sharing its arguments with another optimizer", spec)
    unmodified(b, mon)
    mon.count("shared_argument_pairs")


def k_interleaved(spec, mon):
    """Two instances of the same configuration used in turns equal the same two used one after the other."""
    c, s = spec["conf"], spec["seed"] % 2**32
    T = [2, 1, 3]
    f = [W.RowObj("rastrigin", {"shift": 0.1}), W.RowObj("weird")]

    def steps(order):
        st = {}
        opt = {}
        for k in (0, 1):
            np.random.seed((s + k) % 2**32)
            opt[k] = build(c, s)
            st[k] = np.random.get_state()
        out = {0: [], 1: []}
        cnt = {0: 0, 1: 0}
        for k in order:
            np.random.set_state(st[k])
            r = opt[k].opt.optimize(f[k], T[cnt[k]], verbose=False)
            out[k].append((np.array(r[0]), np.array(r[1])))
            cnt[k] += 1
            st[k] = np.random.get_state()
        for k in (0, 1):
            unmodified(opt[k], mon)
        return [(out[k], state(opt[k].opt)) for k in (0, 1)]

    a = steps([0, 0, 0, 1, 1, 1])
    b = steps([0, 1, 1, 0, 1, 0])
    for k in (0, 1):
        compare(mon, a[k], b[k], "instances used in turns", spec)
    mon.count("interleavings")


def k_threads(spec, mon):
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    s = spec["seed"] % 2**32
    mons, errs = [], []
    builts = []
    for i, c in enumerate(spec["confs"]):
        np.random.seed((s + i) % 2**32)
        builts.append(W.build(c, s + i))
        mons.append(core.Mon())
    order = []
    lock = threading.Lock()

    def hook_of(i):
        def hook(rec, call):
            with lock:
                order.append(i)
        return hook

    start = threading.Barrier(len(builts))

    def body(i):
        b, m = builts[i], mons[i]
        try:
            start.wait()
            x0 = None
            for k in range(2):
                tr = W.do_call(b, S.row("rastrigin", spec["T"], params={"shift": 0.1 * i}), s + i, hook=hook_of(i), verbose=False)
                x0 = tr.X[0] if x0 is None else x0
                M.soundness(tr, b.opt, m)
                M.bookkeeping(tr, b.opt, m)
                M.containment(tr, b, m)
                M.clamped(tr, m)
                if b.conf["vh"] != "adjust":
                    M.motion(tr, b, m, x0)
        except BaseException as e:
            errs.append((i, e))

    th = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(len(builts))]
    try:
        for t in th:
            t.start()
        for t in th:
            t.join(100)
    finally:
        sys.setswitchinterval(old)
    if any(t.is_alive() for t in th):
        raise core.HarnessError("threads did not finish")
    for i, e in errs:
        if core.in_repo(e.__traceback__):
            mon.fail("optimizers in different threads disturb each other: %r" % e, conf=spec["confs"][i])
        else:
            raise core.HarnessError(repr(e))
    for m in mons:
        for k, v in m.counts.items():
            mon.count(k, v)
        for x in m.fails:
            mon.fails.append(dict(x, msg="in threads: " + x["msg"]))
    for b in builts:
        unmodified(b, mon)
    mon.count("thread_switches_between_evaluations", sum(1 for a, b in zip(order, order[1:]) if a != b))
    mon.seen("interleavings", core.digest(order))


SCRIPT = r"""
import sys, json, logging, hashlib
spec = json.load(open(sys.argv[1]))
import numpy as np
from mon import env, work as W
env.quiet()
from mon.checks.c13 import state
for i, c in enumerate(spec["confs"]):
    np.random.seed(i)
    b = W.build(c, i, record_topo=False)
    h = hashlib.sha1()
    for name in ("rastrigin", "sphere"):
        r = b.opt.optimize(W.RowObj(name, {"shift": 0.1}), 5, verbose=False)
        h.update(np.asarray(r[0], float).tobytes() + np.asarray(r[1], float).tobytes())
    for k, v in sorted(state(b.opt).items()):
        for e in (v if isinstance(v, list) else [v]):
            h.update(np.ascontiguousarray(e, dtype=float).tobytes())
    print("DIGEST", h.hexdigest())
from pyswarms.utils.search import GridSearch, RandomSearch
import pyswarms as ps, pyswarms.backend as P
from pyswarms.backend.handlers import OptionsHandler
f = lambda x: (np.asarray(x, float) ** 2).sum(axis=1)
np.random.seed(spec["seed"] % 2**32)
for make in (lambda: RandomSearch(ps.single.LocalBestPSO, 5, 2, {"c1": [1, 2], "c2": [1, 3], "w": [.1, .9], "k": [1, 5], "p": 1}, f, 3, 4, bounds=None, velocity_clamp=(-1, 1)),
             lambda: GridSearch(ps.single.LocalBestPSO, 5, 2, {"w": [.3, .8], "c1": [1., 2.], "k": 2, "c2": [.5, 1.], "p": [1, 2]}, f, 3, velocity_clamp=(-1, 1))):
    s = make()
    g = [[(k, float(v)) for k, v in sorted(o.items())] for o in s.generate_grid()]
    best, o = make().search()
    print("DIGEST", hashlib.sha1(repr((g, float(best), sorted((k, float(v)) for k, v in o.items()))).encode()).hexdigest())
h = OptionsHandler({"w": "random", "c1": "random", "c2": "nonlin_mod"})
o = [h({"w": .5, "c1": 1., "c2": 2.}, iternow=t, itermax=9) for t in range(4)]
print("DIGEST", hashlib.sha1(repr([sorted((k, float(v)) for k, v in e.items()) for e in o]).encode()).hexdigest())
s = P.create_swarm(5, 3, options={"c1": 1., "c2": 2., "w": .5}, bounds=(np.zeros(3), np.ones(3)), clamp=(-1, 1))
print("DIGEST", hashlib.sha1(s.position.tobytes() + s.velocity.tobytes()).hexdigest())
"""


def k_process(spec, mon):
    path = os.path.join(os.getcwd(), "spec%d.json" % spec["seed"])
    with open(path, "w") as f:
        json.dump(spec, f)
    outs = []
    for hs in ("0", "17", "4242", "5", "99"):
        e = dict(os.environ, PYTHONHASHSEED=hs)
        r = subprocess.run([env.PY, "-c", SCRIPT, path], env=e, capture_output=True, text=True, timeout=100)
        if r.returncode:
            raise core.HarnessError(r.stderr[-800:]) if "/repo" not in r.stderr else AssertionFail(mon, r.stderr)
        outs.append([ln for ln in r.stdout.splitlines() if ln.startswith("DIGEST")])
    mon.check(len(outs[0]) == len(spec["confs"]) + 4 and all(o == outs[0] for o in outs), "the same seeded run differs between processes", outs=outs)
    mon.count("process_twins", len(outs[0]))


def AssertionFail(mon, text):
    mon.fail("the code fails in a fresh process", trace=text[-1200:])
    return core.HarnessError("fresh process failed")


def rep(o):
    """A comparable image of nested user arguments."""
    if isinstance(o, np.ndarray):
        return ("nd", o.dtype.str, o.shape, o.tobytes())
    if isinstance(o, dict):
        return ("dict", [(k, rep(v)) for k, v in o.items()])
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, [rep(v) for v in o])
    return repr(o)


def k_defaults(spec, mon):
    g = np.random.default_rng(spec["seed"])
    w = spec["what"]
    mon.seen("defaults", w)
    if w == "swarm":
        mk = lambda: Swarm(position=g.random((3, 2)), velocity=g.random((3, 2)))
        a = mk()
        a.options["c1"] = 99
        a.pbest_cost = np.append(a.pbest_cost, 1.0)
        a.behavior = {"x": 1} if hasattr(a, "behavior") else None
        b = mk()
        mon.check("c1" not in b.options and np.size(b.pbest_cost) == 0 and b.options is not a.options, "swarms share their default options", got=b.options)
        mon.check(b.best_cost == np.inf, "new swarm has a best cost")
        c = mk()
        mon.check(not np.shares_memory(b.pbest_pos, c.pbest_pos) or np.size(b.pbest_pos) == 0, "swarms share default arrays")
    elif w == "create_swarm":
        a = P.create_swarm(3, 2)
        a.options["w"] = -5
        a.options["zzz"] = 1
        b = P.create_swarm(3, 2)
        mon.check("zzz" not in b.options and b.options.get("w") != -5, "created swarms share their default options", got=b.options)
        c = P.create_swarm(3, 2, discrete=True, binary=True)
        mon.check("zzz" not in c.options, "created swarms share their default options", got=c.options)
    elif w == "create_swarm_explicit":
        o = {"c1": 1.0, "c2": 2.0, "w": 0.5}
        bounds = (np.array([-1.0, 0.0]), np.array([1.0, 3.0]))
        init = g.uniform(bounds[0], bounds[1], (3, 2))
        clamp = (np.array([-0.1, -0.2]), np.array([0.3, 0.4]))
        r = rep([o, bounds, init, clamp])
        a = P.create_swarm(3, 2, options=o, bounds=bounds, init_pos=init, clamp=clamp)
        b = P.create_swarm(3, 2, options=o, bounds=bounds, init_pos=init, clamp=clamp)
        opts = ps.single.GlobalBestPSO(3, 2, o, bounds=bounds, velocity_clamp=clamp, init_pos=init, oh_strategy={"w": "exp_decay", "c1": "random", "c2": "nonlin_mod"})
        opts.optimize(W.RowObj("sphere"), 6, verbose=False)
        opts2 = ps.single.LocalBestPSO(3, 2, dict(o, k=2, p=2), bounds=bounds, velocity_clamp=clamp, init_pos=init, bh_strategy="shrink", vh_strategy="zero")
        opts2.optimize(W.RowObj("sphere"), 6, verbose=False)
        mon.check(rep([o, bounds, init, clamp]) == r, "user arguments were modified")
        mon.check(np.array_equal(a.position, init) and np.array_equal(b.position, init), "the given initial positions are not used")
    elif w == "boundary":
        for s in W.BH:
            lb, ub = np.full(2, -1.0), np.full(2, 1.0)
            y = g.uniform(-2, 2, (6, 2))
            np.random.seed(1)
            alone = BoundaryHandler(s)(y.copy(), (lb, ub))
            h = BoundaryHandler(s)
            for _ in range(3):
                h(g.uniform(-2, 2, (6, 2)), (lb, ub))
            np.random.seed(1)
            again = BoundaryHandler(s)(y.copy(), (lb, ub))
            mon.check(np.array_equal(alone, again), "a fresh boundary handler remembers what another one saw", strategy=s)
            two = [BoundaryHandler(s), BoundaryHandler(s)]
            m0 = g.uniform(-1, 1, (6, 2))
            two[0](m0.copy(), (lb, ub))
            two[1](-m0, (lb, ub))
            np.random.seed(2)
            x = two[0](y.copy(), (lb, ub))
            ref = BoundaryHandler(s)
            ref(m0.copy(), (lb, ub))
            np.random.seed(2)
            z = ref(y.copy(), (lb, ub))
            mon.check(np.array_equal(x, z), "boundary handlers share their memory", strategy=s)
            mon.check(np.array_equal(lb, [-1, -1]) and np.array_equal(ub, [1, 1]), "a boundary handler modified the bounds", strategy=s)
    elif w == "velocity":
        for s in ("unmodified", "adjust", "invert", "zero"):
            lb, ub, cl = np.full(2, -1.0), np.full(2, 1.0), (np.full(2, -0.5), np.full(2, 0.4))
            v, x = g.uniform(-1, 1, (6, 2)), g.uniform(-2, 2, (6, 2))
            kw = dict(position=x, bounds=(lb, ub))
            alone = VelocityHandler(s)(v.copy(), cl, **copy.deepcopy(kw))
            h = VelocityHandler(s)
            for _ in range(3):
                h(g.uniform(-1, 1, (6, 2)), cl, position=g.uniform(-2, 2, (6, 2)), bounds=(lb, ub))
            again = VelocityHandler(s)(v.copy(), cl, **copy.deepcopy(kw))
            mon.check(np.array_equal(alone, again), "a fresh velocity handler remembers what another one saw", strategy=s)
            mon.check(rep(cl) == rep((np.full(2, -0.5), np.full(2, 0.4))) and np.array_equal(lb, [-1, -1]), "a velocity handler modified clamp or bounds", strategy=s)
    elif w == "options":
        start = {"c1": 1.0, "c2": 2.0, "w": 0.7}
        strat = {"c1": "exp_decay", "c2": "lin_variation", "w": "nonlin_mod"}
        r = rep([start, strat])
        h, k = OptionsHandler(strat), OptionsHandler({"w": "exp_decay"})
        first = dict(h(start, iternow=3, itermax=10))
        k({"c1": 5.0, "c2": 9.0, "w": 4.0}, iternow=1, itermax=3)
        for q in range(4):
            h(start, iternow=q, itermax=10)
        mon.check(dict(h(start, iternow=3, itermax=10)) == first, "an options handler depends on earlier calls")
        mon.check(rep([start, strat]) == r, "an options handler modified its arguments", start=start, strat=strat)
    elif w == "topologies":
        from pyswarms.backend.topology import Pyramid, Random, Ring, Star, VonNeumann

        X, Y = g.random((9, 2)), g.random((9, 2))
        cost = g.random(9)

        def sw(X):
            return Swarm(position=X.copy(), velocity=np.zeros_like(X), pbest_pos=X.copy(), pbest_cost=cost.copy(), best_cost=np.inf, options={"c1": 1, "c2": 1, "w": 1})

        for mk, kw in [(Ring, dict(p=2, k=3)), (VonNeumann, dict(p=2, r=1)), (Pyramid, {}), (Random, dict(k=2)), (Star, {})]:
            a, b = mk(static=True), mk(static=True)
            a.compute_gbest(sw(X), **kw)
            keep_a = rep([np.asarray(q).tolist() for q in a.neighbor_idx])
            np.random.seed(4)
            x = b.compute_gbest(sw(Y), **kw)
            np.random.seed(4)
            z = mk(static=True).compute_gbest(sw(Y), **kw)
            mon.check(np.array_equal(x[0], z[0]) and x[1] == z[1], "topologies share their neighbourhoods", topology=mk.__name__)
            mon.check(rep([np.asarray(q).tolist() for q in a.neighbor_idx]) == keep_a, "a static topology's neighbourhoods were changed by another one", topology=mk.__name__)
    elif w == "designer":
        from pyswarms.utils.plotters.formatters import Designer

        a = Designer()
        for name in ("limits", "label", "figsize"):
            v = getattr(a, name)
            if isinstance(v, list):
                v.append("polluted")
            a.legend = "polluted"
        b = Designer()
        mon.check("polluted" not in repr([b.limits, b.label, b.figsize, b.legend]), "designers share their defaults", got=[b.limits, b.label, b.figsize, b.legend])
    elif w == "mesher":
        from pyswarms.utils.plotters.formatters import Mesher

        a = Mesher(func=W.RowObj("sphere"))
        for name in ("limits", "levels"):
            v = getattr(a, name)
            if isinstance(v, list):
                v.append("polluted")
            elif isinstance(v, np.ndarray):
                v[...] = 12345
        b = Mesher(func=W.RowObj("sphere"))
        mon.check("polluted" not in repr(b.limits) and not np.any(np.asarray(b.levels) == 12345), "meshers share their defaults", got=[b.limits, b.levels])
    elif w == "animator":
        from pyswarms.utils.plotters.formatters import Animator

        a = Animator()
        a.interval, a.repeat, a.repeat_delay = 1, 2, 3
        b = Animator()
        mon.check((b.interval, b.repeat_delay, b.repeat) != (1, 3, 2), "animators share their defaults")
    elif w == "histories":
        for opt, topo in S.ALL_KINDS:
            c = S.base_conf(opt, n=5, d=2, topo=topo)
            a, b = build(c, 1), build(c, 2)
            a.opt.optimize(W.RowObj("sphere"), 3, verbose=False)
            mon.check(all(len(getattr(b.opt, h)) == 0 for h in W.HIST), "optimizers share their histories", opt=opt, topo=topo)
            mon.check(b.opt.swarm is not a.opt.swarm and b.opt.swarm.options is not a.opt.swarm.options, "optimizers share their swarm")
            a.opt.swarm.options["w"] = 77
            mon.check(b.opt.swarm.options["w"] != 77, "optimizers share options", opt=opt)
    elif w == "reporter":
        from pyswarms.utils import Reporter

        a, b = Reporter(), Reporter()
        import logging

        logging.getLogger().handlers.clear()
        env.quiet()
        mon.check(a is not b, "reporters are shared")
    elif w == "search":
        from pyswarms.utils.search import GridSearch, RandomSearch

        o = {"c1": [1, 2], "c2": [0.5], "w": 0.7, "k": [2], "p": 2}
        bo = (np.full(2, -1.0), np.full(2, 1.0))
        r = rep([o, bo])
        GridSearch(ps.single.LocalBestPSO, n_particles=5, dimensions=2, options=o, objective_func=W.RowObj("sphere"), iters=2, bounds=bo).search()
        mon.check(rep([o, bo]) == r, "grid search modified its arguments", o=o)
        o = {"c1": [1, 2], "c2": [0.5, 0.7], "w": [0.1, 0.7], "k": [2, 4], "p": 2}
        r = rep([o, bo])
        RandomSearch(ps.single.LocalBestPSO, n_particles=5, dimensions=2, options=o, objective_func=W.RowObj("sphere"), iters=2, n_selection_iters=3, bounds=bo).search()
        mon.check(rep([o, bo]) == r, "random search modified its arguments", o=o)
    elif w == "plot_args":
        import matplotlib

        matplotlib.use("Agg")
        import matplotlib.pyplot as plt
        from pyswarms.utils.plotters import plot_contour, plot_cost_history, plot_surface
        from pyswarms.utils.plotters.formatters import Designer, Mesher

        hist = [g.random((4, 2)) for _ in range(3)]
        h3 = [np.column_stack([h, h.sum(1)]) for h in hist]
        ch = [3.0, 2.0, 1.0]
        lim = [(-1, 1), (-1, 1)]
        d = Designer(limits=lim)
        m = Mesher(func=W.RowObj("sphere"), limits=[(-1, 1), (-1, 1)], delta=0.5)
        mark = (0, 0)
        before = rep([hist, h3, ch, lim, mark, d.limits, d.label, d.figsize, d.legend, m.limits, m.delta, m.levels])
        plot_cost_history(ch, designer=d)
        plot_contour(hist, designer=d, mesher=m, mark=mark)
        d3 = Designer(limits=[(-1, 1)] * 3, label=["x", "y", "z"])
        plot_surface(h3, designer=d3, mesher=m, mark=(0, 0, 0))
        m.compute_history_3d(hist)
        plt.close("all")
        mon.check(rep([hist, h3, ch, lim, mark, d.limits, d.label, d.figsize, d.legend, m.limits, m.delta, m.levels]) == before, "plotting modified its arguments")
    elif w == "gen_args":
        bo = (np.array([-1.0, 2.0]), np.array([1.0, 3.0]))
        cl = (np.array([-0.3, 0.1]), np.array([0.2, 0.4]))
        init = g.uniform(bo[0], bo[1], (4, 2))
        for arr in (*bo, *cl, init):
            arr.setflags(write=False)
        r = rep([bo, cl, init])
        P.generate_swarm(4, 2, bounds=bo)
        P.generate_swarm(4, 2, bounds=bo, center=1.0, init_pos=init)
        P.generate_velocity(4, 2, clamp=cl)
        P.generate_discrete_swarm(4, 2, binary=True, init_pos=np.ones((4, 2)))
        mon.check(rep([bo, cl, init]) == r, "generators modified their arguments")
        o = ps.single.GlobalBestPSO(4, 2, {"c1": 2.0, "c2": 2.0, "w": 1.2}, bounds=bo, velocity_clamp=cl, init_pos=init, bh_strategy=W.BH[spec["seed"] % 6])
        o.optimize(W.RowObj("sphere"), 9, verbose=False)
        o.reset()
        o.optimize(W.RowObj("sphere"), 3, verbose=False)
        mon.check(rep([bo, cl, init]) == r, "an optimizer modified its arguments")
    elif w == "oh_args":
        st = {"w": "exp_decay", "c1": "random", "c2": "lin_variation"}
        r = rep(st)
        a = ps.single.GlobalBestPSO(4, 2, {"c1": 2.0, "c2": 2.0, "w": 1.2}, oh_strategy=st)
        a.optimize(W.RowObj("sphere"), 5, verbose=False)
        mon.check(rep(st) == r, "the strategy dictionary was modified", got=st)
        b = ps.single.GlobalBestPSO(4, 2, {"c1": 2.0, "c2": 2.0, "w": 1.2})
        b.optimize(W.RowObj("sphere"), 5, verbose=False)
        mon.check(dict(b.swarm.options) == {"c1": 2.0, "c2": 2.0, "w": 1.2}, "an optimizer without strategies got another one's", got=b.swarm.options)
    else:
        raise core.HarnessError(w)
