"""C23: failing objectives. Fault injection at every evaluation, serially and in the workers; all other
monitors then judge what the failed call recorded and every later run."""
import gc
import multiprocessing
import os
import signal
import tempfile
import time

import numpy as np

import pyswarms as ps

from .. import core
from .. import monitors as M
from .. import sessions as S
from .. import work as W
from .c03 import read_log
from .c13 import gone, same_state, state


class Odd(Exception):
    """An exception that cannot be built from a message alone."""

    def __init__(self, code, *, where):
        super().__init__(code)
        self.code, self.where = code, where


class Bare(BaseException):
    pass


EXC = {k: v for k, v in W.EXC.items()}
EXC.update(Odd=Odd, Bare=Bare, GeneratorExit=GeneratorExit, OSError=OSError, AssertionError=AssertionError, UnicodeError=UnicodeError, Warning=UserWarning,
           LinAlgError=np.linalg.LinAlgError, StopAsyncIteration=StopAsyncIteration, EOFError=EOFError, BrokenPipeError=BrokenPipeError, NotImplementedError=NotImplementedError)
INTERRUPTS = ["KeyboardInterrupt", "Bare", "SystemExit", "TimeoutError"]
WORKER_EXC = ["Boom", "ValueError", "KeyError", "ZeroDivisionError", "RuntimeError", "TypeError", "AttributeError", "StopIteration", "MemoryError", "IndexError"]


def make_exc(name, seed):
    if name == "Odd":
        return Odd(seed, where="here")
    return EXC[name]("injected %d" % seed)


def cases(tier, seed):
    rng = S.rng_for("C23", seed, tier)
    i = 0
    # every optimizer, every iteration of a short run
    for opt, topo in S.ALL_KINDS:
        for at in range(6):
            for then in ("run", "reset"):
                i += 1
                c = S.base_conf(opt, n=6, d=2, topo=topo, static=bool(i % 2), init=[None, "float", "int"][i % 3], clamp=[-0.8, 0.7] if i % 4 == 0 else None)
                if opt != "binary" and i % 2:
                    c.update(bounds=[[-1.5, -1.0], [1.0, 2.0]], bh=W.BH[i % 6], vh=["invert", "zero", "unmodified"][i % 3], oh={"w": "lin_variation"} if i % 5 == 0 else None)
                yield {"kind": "serial", "seed": i, "conf": c, "calls": [S.row("rastrigin", 6), S.row("sphere", 5)], "fail": [at, None], "exc": sorted(EXC)[i % len(EXC)], "then": then}
        for at in (0, 1, 3):
            i += 1
            yield {"kind": "parallel", "seed": i, "conf": S.base_conf(opt, n=7, d=2, topo=topo), "procs": 1 + i % 5, "T": 5, "at": at, "who": ["all", "one"][i % 2], "exc": WORKER_EXC[i % len(WORKER_EXC)],
                   "delay": [None, 0.02][(i // 2) % 2], "then": ["serial", "parallel", "reset"][i % 3]}
    for k, s in enumerate(S.extremes(tier, light=True) + S.extremes(tier, light=True, bounds=lambda d: [[-1.0] * d, [1.5] * d], bh="shrink", vh="zero", clamp=[-0.4, 0.7])):
        # late failures of long runs, failures of the late calls, big swarms
        at = [[q["iters"] - 1 - k % 3 if (j + k) % 4 == 0 and q["iters"] > 3 or j == len(s["calls"]) // 2 and q["iters"] > 3 else 0 if (j + k) % 9 == 0 else None][0] for j, q in enumerate(s["calls"])]
        yield dict(s, kind="serial", seed=800 + k, fail=at, exc=sorted(EXC)[k % len(EXC)], then=["run", "reset"][k % 2])
    for k in range(1500 if tier == "quick" else 16000):
        s = S.gen_session(rng, max_iters=14, p_oh=0.3, p_ftol=0.15, p_multi=0.7)
        if s["conf"]["vh"] == "adjust":
            s["conf"]["vh"] = "unmodified"
        for call in s["calls"]:
            call.pop("reset", None)
        s["kind"] = "serial"
        s["fail"] = [int(rng.integers(0, c["iters"])) if rng.random() < 0.6 else None for c in s["calls"]]
        s["exc"] = W.pick(rng, sorted(EXC))
        s["then"] = W.pick(rng, ["run", "run", "reset"])
        yield s
    for k in range(50 if tier == "quick" else 600):
        c = W.gen_conf(rng, n=W.pick(rng, [1, 2, 3, 5, 8, 13]), p_oh=0.3)
        if c["vh"] == "adjust":
            c["vh"] = "unmodified"
        T = int(rng.integers(1, 7))
        yield {"kind": "parallel", "conf": c, "procs": int(W.pick(rng, [1, 2, 3, 4, 7])), "T": T, "at": int(rng.integers(0, T)), "who": W.pick(rng, ["all", "one"]),
               "exc": W.pick(rng, WORKER_EXC), "delay": W.pick(rng, [None, 0.01, 0.03]), "then": W.pick(rng, ["serial", "parallel", "reset"])}


    intr = [(o, t, e) for o, t in S.ALL_KINDS for e in INTERRUPTS]
    for k in range(len(intr) + (8 if tier == "quick" else 240)):
        if k < len(intr):
            c, exc = S.base_conf(intr[k][0], n=5, d=2, topo=intr[k][1]), intr[k][2]
        else:
            c, exc = W.gen_conf(rng, n=W.pick(rng, [2, 3, 5, 8, 13]), p_oh=0.3), INTERRUPTS[k % 4]
        if c["vh"] == "adjust":
            c["vh"] = "unmodified"
        T = int(rng.integers(1, 5))
        yield {"kind": "interrupted", "conf": c, "procs": int(W.pick(rng, [1, 2, 3, 4])), "T": T, "at": int(rng.integers(0, T)),
               "exc": exc, "then": W.pick(rng, ["serial", "parallel", "reset"])}
    for k in range(250 if tier == "quick" else 2500):
        c = W.gen_conf(rng, n=W.pick(rng, [1, 2, 3, 5, 8, 13]), p_oh=0.3)
        if c["vh"] == "adjust":
            c["vh"] = "unmodified"
        T = int(rng.integers(1, 7))
        yield {"kind": "decorated", "conf": c, "T": T, "at": int(rng.integers(0, T)), "row": int(rng.integers(0, c["n"])), "exc": W.pick(rng, sorted(EXC)),
               "procs": int(W.pick(rng, [1, 2, 4])) if k % 5 == 0 else None, "wexc": W.pick(rng, WORKER_EXC), "then": W.pick(rng, ["run", "reset"])}


def run(spec, mon):
    return globals()["k_" + spec["kind"]](spec, mon)


def judge_all(tr, b, mon, full=True):
    """Every guarantee of a normal run, over the completed iterations of the call."""
    T = len(tr.C)
    tr.X = tr.X[:T]
    if full:
        M.soundness(tr, b.opt, mon)
        M.protocol(tr, b.opt, mon, tr.call["iters"] if tr.conf["ftol"] is None else None)
    mon.check(all(y - x == T for x, y in zip(tr.h0, tr.h1)), "the histories do not have one entry per completed iteration", lens=[y - x for x, y in zip(tr.h0, tr.h1)], completed=T)
    if T == 0:
        return
    M.bookkeeping(tr, b.opt, mon)
    M.histories(tr, b.opt, mon)
    M.containment(tr, b, mon)
    M.clamped(tr, mon)
    if b.static_x is None and tr.X:
        b.static_x = tr.X[0]
    M.motion(tr, b, mon, b.static_x)


def k_serial(spec, mon):
    c, s = spec["conf"], spec["seed"] % 2**32
    np.random.seed(s)
    b = W.build(c, s)
    b.static_x = b.stale_pb = None
    frozen = M.Frozen(b.opt)
    for i, call in enumerate(spec["calls"]):
        at = spec["fail"][i] if i < len(spec["fail"]) else None
        err = make_exc(spec["exc"], s + i)
        x0, v0 = np.array(b.opt.swarm.position), np.array(b.opt.swarm.velocity)

        def hook(rec, k, at=at, err=err):
            frozen.update()
            if at is not None and k.t == at:
                raise err

        # do_call lets the injected error through; rebuild the observation around it
        caught = None
        tr = None
        box = {}
        call2 = dict(call)
        try:
            tr = run_call(b, call2, s + i, hook, box)
        except BaseException as e:
            if e is not err and not (type(e) is type(err)):
                raise
            caught = e
        frozen.update()
        if tr is None:
            rec = box["rec"]
            mon.check(caught is err, "not the objective's own error is raised", got=repr(caught), want=repr(err))
            mon.check(len(rec.calls) == at + 1, "the objective was evaluated again after it failed", calls=len(rec.calls), at=at)
            tr = observe(b, call2, box, None)
            judge_all(tr, b, mon, full=False)
            mon.check(np.array_equal(np.asarray(b.opt.swarm.position), rec.calls[-1].x), "the current positions are not those of the failed evaluation")
            mon.count("failures")
            mon.seen("failures", (c["opt"], c["topo"], spec["exc"], min(at, 9)))
        else:
            mon.check(at is None or len(tr.rec.calls) <= at, "the objective's error was swallowed", at=at)
            judge_all(tr, b, mon)
            mon.count("normal_runs")
        if tr.rec.calls:
            mon.check(np.array_equal(tr.rec.calls[0].x, x0), "a call does not start from the swarm's current positions")
            if tr.V:
                mon.check(np.array_equal(tr.V[0], v0), "a call does not start from the swarm's current velocities")
        frozen.verify(mon)
    last(b, spec, mon)
    frozen.verify(mon) if spec["then"] == "run" else None


def run_call(b, call, seed, hook, box):
    opt, c = b.opt, b.conf
    box["h0"] = [len(getattr(opt, h)) for h in W.HIST]
    box["top0"] = len(b.top.log) if b.top is not None else 0
    rec = box["rec"] = W.Rec(W.make_fn(call["obj"], c["n"], seed), call.get("ret", "plain"), call["iters"] + 3, opt, hook)
    r = opt.optimize(rec, call["iters"], verbose=False, **call["kwargs"])
    return observe(b, call, box, r)


def observe(b, call, box, result):
    tr = W.Trace()
    opt, rec = b.opt, box["rec"]
    tr.call, tr.conf, tr.rec, tr.h0, tr.error, tr.result = call, b.conf, rec, box["h0"], None, result
    tr.kwargs = dict(call["kwargs"])
    tr.h1 = [len(getattr(opt, h)) for h in W.HIST]
    tr.X = [k.x for k in rec.calls]
    tr.C = [k.y for k in rec.calls if k.y is not None]
    tr.hist = {h: list(getattr(opt, h)[tr.h0[i]:]) for i, h in enumerate(W.HIST)}
    tr.V = [np.array(v, copy=True) for v in tr.hist["velocity_history"]]
    tr.P = [np.array(v, copy=True) for v in tr.hist["pos_history"]]
    tr.toplog = b.top.log[box["top0"]:] if b.top is not None else None
    return tr


def last(b, spec, mon, procs=None):
    """After all failures: a normal run, or a reset and a run compared with a new optimizer."""
    c, s = spec["conf"], spec["seed"] % 2**32
    if spec["then"] == "reset":
        movable = c["opt"] == "gbest" or c["topo"] == "star" or c["opt"] == "binary" or (not c["static"] and c["topo"] != "vonneumann")
        np.random.seed(s + 7)
        b.opt.reset()
        mon.check(all(len(getattr(b.opt, h)) == 0 for h in W.HIST), "histories survive reset after a failure")
        if movable:
            fresh = W.build(c, s)
            np.random.seed(s + 7)
            fresh.opt.reset()
            out = []
            for q in (b, fresh):
                np.random.seed(s + 8)
                r = q.opt.optimize(W.RowObj("rastrigin"), 5, verbose=False)
                out.append((float(r[0]), np.array(r[1])))
            mon.check((out[0][0] == out[1][0] or np.isnan(out[0][0])) and np.array_equal(out[0][1], out[1][1]), "a run after failure and reset differs from that of a new optimizer", got=out[0], want=out[1])
            msg = same_state(state(fresh.opt), state(b.opt))
            mon.check(msg is None, "a run after failure and reset differs from that of a new optimizer", why=msg)
            mon.count("reset_twins")
            return
        b.stale_pb = None
    box = {}
    call = S.row("rastrigin", 5, params={"shift": 0.4})
    tr = run_call(b, call, s + 50, None, box)
    judge_all(tr, b, mon)
    mon.count("runs_after_failure")


class Interrupting(W.RowObj):
    """In iteration `at` the first worker to get there signals the main process, and all keep busy."""

    def __init__(self, log, n, at, parent):
        super().__init__("sphere", {"shift": 0.2, "loop": 1}, log=log)
        self.n, self.at, self.parent = n, at, parent

    def __call__(self, x, **kw):
        done = sum(r["shape"][0] for r in read_log(self.log)) if os.path.exists(self.log) else 0
        if done >= self.n * self.at:
            with open(self.log + ".pids", "a") as f:
                f.write("%d\n" % os.getpid())
            try:
                os.close(os.open(self.log + ".token", os.O_CREAT | os.O_EXCL))
                time.sleep(0.1)
                os.kill(self.parent, signal.SIGUSR1)
            except FileExistsError:
                pass
            time.sleep(0.8)
            return self.value(x, **kw)
        return super().__call__(x, **kw)


def k_interrupted(spec, mon):
    """The main process is interrupted (Ctrl-C, an alarm) while it waits for the workers."""
    c, s = spec["conf"], spec["seed"] % 2**32
    n, at = c["n"], spec["at"]
    d = tempfile.mkdtemp(prefix="intr")
    log = os.path.join(d, "log")
    exc = dict(EXC, TimeoutError=TimeoutError, KeyboardInterrupt=KeyboardInterrupt, SystemExit=SystemExit)[spec["exc"]]
    raised = exc("injected %d" % s)
    np.random.seed(s)
    b = W.build(c, s)
    b.static_x = b.stale_pb = None
    np.random.seed(s)
    ref = W.build(c, s).opt

    def g(x, k=[0]):
        k[0] += 1
        if k[0] > at:
            raise W.Boom("twin")
        return W.RowObj("sphere", {"shift": 0.2, "loop": 1}).value(x)

    np.random.seed(s + 1)
    early = True
    try:
        ref.optimize(g, spec["T"], verbose=False)
    except W.Boom:
        early = False

    def handler(*a):
        raise raised

    before = {p.pid for p in multiprocessing.active_children()}
    old = signal.signal(signal.SIGUSR1, handler)
    err = None
    np.random.seed(s + 1)
    try:
        b.opt.optimize(Interrupting(log, n, at, os.getpid()), spec["T"], n_processes=spec["procs"], verbose=False)
    except BaseException as e:
        if type(e).__name__ == "CaseTimeout":
            raise
        err = e
    finally:
        signal.signal(signal.SIGUSR1, old)
    if early and err is None:
        return
    if not mon.check(err is not None, "an interruption of the main process was swallowed", at=at, exc=spec["exc"]):
        return
    mon.check(err is raised, "an interruption of the main process reaches the caller changed", got=repr(err), want=repr(raised))
    pids = {p.pid for p in multiprocessing.active_children()} - before
    if os.path.exists(log):
        pids |= {r["pid"] for r in read_log(log)} - {os.getpid()}
    with open(log + ".pids") as f:
        pids |= {int(v) for v in f.read().split()}
    gone(pids, mon, "worker processes survive an interrupted call")
    lens = {h: len(getattr(b.opt, h)) for h in W.HIST}
    mon.check(set(lens.values()) == {at}, "the histories do not have one entry per completed iteration", lens=lens, completed=at)
    why = same_state(state(ref), state(b.opt))
    mon.check(why is None, "after an interruption the optimizer differs from one whose serial run failed", why=why)
    mon.count("interruptions")
    mon.seen("interruptions", (c["opt"], c["topo"], spec["exc"], spec["procs"], at))
    if at:
        b.static_x = np.asarray(b.opt.pos_history[0], float)
    if spec["then"] == "parallel":
        np.random.seed(s + 3)
        k = len(b.opt.cost_history)
        h = W.RowObj("rastrigin", {"loop": 1})
        r = b.opt.optimize(h, 3, n_processes=spec["procs"], verbose=False)
        C = np.concatenate([h.value(np.asarray(p, float)) for p in b.opt.pos_history[k:]])
        mon.check(float(r[0]) == C.min(), "a parallel run after an interruption returns a wrong cost", got=r[0], want=C.min())
        mon.count("runs_after_failure")
    else:
        b.stale_pb = np.asarray(b.opt.swarm.pbest_pos, float).copy()
        last(b, dict(spec, then="reset" if spec["then"] == "reset" else "run"), mon)
    for p in os.listdir(d):
        os.unlink(os.path.join(d, p))
    os.rmdir(d)


class Failing(W.RowObj):
    """Fails in the worker in which (or in all workers while) iteration `at` is evaluated."""

    def __init__(self, log, n, at, who, exc, msg, delay):
        super().__init__("sphere", {"shift": 0.2, "loop": 1}, log=log, delay=delay)
        self.n, self.at, self.who, self.exc, self.msg = n, at, who, exc, msg

    def __call__(self, x, **kw):
        # all rows of iteration t are logged before iteration t + 1 begins
        done = sum(r["shape"][0] for r in read_log(self.log)) if os.path.exists(self.log) else 0
        if done >= self.n * self.at:
            mine = self.who == "all"
            if not mine:
                try:
                    os.close(os.open(self.log + ".token", os.O_CREAT | os.O_EXCL))
                    mine = True
                except FileExistsError:
                    pass
            if mine:
                raise W.EXC[self.exc](self.msg)
            # the others of that iteration finish normally, without being logged
            return self.value(x, **kw)
        return super().__call__(x, **kw)


def k_parallel(spec, mon):
    c, s = spec["conf"], spec["seed"] % 2**32
    n = c["n"]
    d = tempfile.mkdtemp(prefix="fail")
    log = os.path.join(d, "log")
    msg = "injected %d" % s
    np.random.seed(s)
    b = W.build(c, s)
    b.static_x = b.stale_pb = None
    f = Failing(log, n, spec["at"], spec["who"], spec["exc"], msg, spec["delay"])
    # the serial twin up to the failure
    np.random.seed(s)
    t = W.build(c, s)
    ref = t.opt
    twin_err = None

    def g(x, k=[0]):
        k[0] += 1
        if k[0] > spec["at"]:
            raise W.Boom("twin")
        return W.RowObj("sphere", {"shift": 0.2, "loop": 1}).value(x)

    np.random.seed(s + 1)
    try:
        ref.optimize(g, spec["T"], verbose=False)
    except W.Boom as e:
        twin_err = e
    np.random.seed(s + 1)
    before = {p.pid for p in multiprocessing.active_children()}
    err = None
    try:
        b.opt.optimize(f, spec["T"], n_processes=spec["procs"], verbose=False)
    except Exception as e:
        err = e
    pids = {p.pid for p in multiprocessing.active_children()} - before
    if os.path.exists(log):
        pids |= {r["pid"] for r in read_log(log)} - {os.getpid()}
    if not mon.check(err is not None, "an error of the objective in a worker was swallowed", at=spec["at"]):
        return
    if twin_err is None:
        return
    mon.check(type(err) is W.EXC[spec["exc"]] and err.args == (msg,), "the objective's error reaches the caller changed", got=repr(err), want=(spec["exc"], msg))
    # while the caller still holds the error
    gone(pids, mon, "worker processes survive a failed call")
    lens = {h: len(getattr(b.opt, h)) for h in W.HIST}
    mon.check(set(lens.values()) == {spec["at"]}, "the histories do not have one entry per completed iteration", lens=lens, completed=spec["at"])
    why = same_state(state(ref), state(b.opt))
    mon.check(why is None, "after a failure in a worker the optimizer differs from one whose serial run failed", why=why)
    mon.count("worker_failures")
    mon.seen("worker_failures", (c["opt"], c["topo"], spec["exc"], spec["procs"], spec["at"], spec["who"]))
    if spec["at"]:
        b.static_x = np.asarray(b.opt.pos_history[0], float)
    if spec["then"] == "parallel":
        np.random.seed(s + 3)
        k = len(b.opt.cost_history)
        h = W.RowObj("rastrigin", {"loop": 1})
        r = b.opt.optimize(h, 3, n_processes=spec["procs"], verbose=False)
        mon.check(len(b.opt.cost_history) - k == (3 if c["ftol"] is None else len(b.opt.cost_history) - k), "a parallel run after a failure does not perform its iterations")
        C = np.concatenate([h.value(np.asarray(p, float)) for p in b.opt.pos_history[k:]])
        mon.check(float(r[0]) == C.min(), "a parallel run after a failure returns a wrong cost", got=r[0], want=C.min())
        mon.count("runs_after_failure")
    else:
        # personal bests of a failed call only matter within it
        b.stale_pb = np.asarray(b.opt.swarm.pbest_pos, float).copy()
        last(b, dict(spec, then="reset" if spec["then"] == "reset" else "run"), mon)
    for p in os.listdir(d):
        os.unlink(os.path.join(d, p))
    os.rmdir(d)


@ps.cost
def scalar_failing(z, target=None, exc=None, msg=None, raiser=None):
    """Fails at the particle at `target`; a scalar objective made ready with the cost decorator."""
    if target is not None and np.array_equal(z, target):
        if raiser is not None:
            raise raiser
        raise W.EXC[exc](msg)
    return float(((np.asarray(z, float) - 0.2) ** 2).sum())


def k_decorated(spec, mon):
    """Scalar objectives under the cost decorator, failing at one particle of one iteration."""
    c, s, at = spec["conf"], spec["seed"] % 2**32, spec["at"]
    np.random.seed(s)
    twin = W.build(c, s, record_topo=False)
    seen = []

    def g(x):
        seen.append(np.array(x, copy=True))
        if len(seen) == at + 1:
            raise W.Boom("twin")
        return np.array([((np.asarray(z, float) - 0.2) ** 2).sum() for z in x])

    np.random.seed(s + 1)
    try:
        twin.opt.optimize(g, spec["T"], verbose=False)
        return  # stopped early, by the tolerance
    except W.Boom:
        pass
    target = seen[at][spec["row"]]
    if any((x == target).all(axis=1).any() for x in seen[:at]):
        return
    np.random.seed(s)
    b = W.build(c, s, record_topo=False)
    b.static_x = b.stale_pb = None
    np.random.seed(s + 1)
    err = make_exc(spec["exc"], s) if spec["procs"] is None else None
    caught = None
    before = {p.pid for p in multiprocessing.active_children()}
    try:
        if spec["procs"] is None:
            b.opt.optimize(scalar_failing, spec["T"], verbose=False, target=target, raiser=err)
        else:
            b.opt.optimize(scalar_failing, spec["T"], n_processes=spec["procs"], verbose=False, target=target, exc=spec["wexc"], msg="injected %d" % s)
    except BaseException as e:
        if isinstance(e, core.CaseTimeout):
            raise
        caught = e
    name = spec["exc"] if spec["procs"] is None else spec["wexc"]
    if not mon.check(caught is not None, "the error of a decorated objective was swallowed", exc=name, at=at, row=spec["row"], procs=spec["procs"]):
        return
    if spec["procs"] is None:
        mon.check(caught is err, "not the decorated objective's own error is raised", got=repr(caught), want=repr(err))
    else:
        mon.check(type(caught) is W.EXC[spec["wexc"]] and caught.args == ("injected %d" % s,), "the decorated objective's error reaches the caller changed", got=repr(caught))
        gone({p.pid for p in multiprocessing.active_children()} - before, mon, "worker processes survive a failed call")
    lens = {h: len(getattr(b.opt, h)) for h in W.HIST}
    mon.check(set(lens.values()) == {at}, "the histories do not have one entry per completed iteration", lens=lens, completed=at)
    why = same_state(state(twin.opt), state(b.opt))
    mon.check(why is None, "after the failure of a decorated objective the histories differ from those of an equal run up to there", why=why)
    mon.count("decorated_failures")
    mon.seen("decorated_failures", (c["opt"], c["topo"], name, bool(spec["procs"])))
    # usable again, with the decorated function itself
    if spec["then"] == "reset":
        b.opt.reset()
        mon.check(all(len(getattr(b.opt, h)) == 0 for h in W.HIST), "histories survive reset after a failure")
    k = len(b.opt.cost_history)
    r = b.opt.optimize(scalar_failing, 3, verbose=False)
    C = np.array([[((np.asarray(z, float) - 0.2) ** 2).sum() for z in x] for x in b.opt.pos_history[k:]])
    mon.check(float(r[0]) == C.min() and (c["ftol"] is not None or len(C) == 3), "a run after a failure returns a wrong cost", got=r[0], want=C.min())
    mon.count("runs_after_failure")
