"""C26: the process is left as it was found. Monitors: snapshots of the process-wide settings before, inside
of and after everything the package does; counts of descriptors, threads, children, handlers; weak
references to everything an optimizer made; the directory tree."""
import atexit
import contextlib
import gc
import io
import json
import locale
import logging
import multiprocessing as mp
import os
import random
import signal
import subprocess
import sys
import threading
import time
import warnings
import weakref

import numpy as np

from .. import core, env
from .. import sessions as S
from .. import work as W

import pyswarms as ps
from pyswarms.utils.decorators import cost
from pyswarms.utils.reporter import Reporter
from pyswarms.utils.search import GridSearch, RandomSearch
from pyswarms.utils.functions import single_obj as fx


def cases(tier, seed):
    rng = S.rng_for("C26", seed, tier)
    q = 1 if tier == "quick" else 10
    i = 0
    for s in S.directed()[:: 3 if tier == "quick" else 1]:
        yield dict(s, kind="session")
    for k, s in enumerate(S.extremes(tier, light=True)):
        yield dict(s, kind="session", err=["warn", "ignore", "mixed", "call"][k % 4])
    for k in range(500 * q):
        s = S.gen_session(rng, max_iters=8, p_oh=0.3, p_ftol=0.3)
        s["kind"] = "session"
        s["err"] = ["warn", "ignore", "mixed", "call"][k % 4]
        yield s
    for opt, topo in S.ALL_KINDS:
        for how in ("plain", "verbose", "tolerance", "failing", "parallel", "parallel_failing", "rerun", "interrupt"):
            i += 1
            c = S.base_conf(opt, n=5, d=2, topo=topo, bounds=None if opt == "binary" or i % 2 else [[-1.0, -1.0], [1.0, 2.0]], clamp=[-1.0, 1.0] if i % 3 else None)
            if how == "tolerance":
                c["ftol"], c["ftol_iter"] = 1e-1, 2
            yield {"kind": "repeat", "conf": c, "how": how, "seed": i, "reps": (4 if "parallel" in how else 12) * (1 if tier == "quick" else 6)}
    for k in range(60 * q):
        c = W.gen_conf(rng, n=int(rng.integers(2, 8)))
        yield {"kind": "repeat", "conf": c, "how": ["plain", "verbose", "failing", "rerun"][k % 4], "reps": 8}
    for k in range(2 * q):
        for what in ("grid", "random", "cost", "functions", "plots", "plots_parallel", "reporters", "errors"):
            yield {"kind": "others", "what": what, "reps": 6 if tier == "quick" else 30, "seed": k}
    for k in range(1 * q):
        for what in ("import", "default_log", "session", "parallel"):
            yield {"kind": "process", "what": what, "seed": k}


def run(spec, mon):
    return globals()["k_" + spec["kind"]](spec, mon)


# ------------------------------------------------------------------ instruments
SIGNALS = [s for s in (signal.SIGINT, signal.SIGTERM, signal.SIGHUP, signal.SIGCHLD, signal.SIGPIPE, signal.SIGUSR1, signal.SIGFPE, signal.SIGALRM) if s]


def settings():
    """Everything process-wide that user code may depend on (documented exception: logging configuration)."""
    d = {
        "working directory": os.getcwd(),
        "environment": dict(os.environ),
        "umask": _umask(),
        "numpy error handling": np.geterr(),
        "numpy error callback": np.geterrcall(),
        "numpy print options": {k: repr(v) for k, v in np.get_printoptions().items()},
        "numpy generator kind": np.random.get_state()[0],
        "python generator": random.getstate(),
        "warning filters": list(warnings.filters),
        "warning display": (warnings.showwarning, warnings.formatwarning),
        "signal handlers": {int(s): signal.getsignal(s) for s in SIGNALS},
        "start method": mp.get_start_method(),
        "recursion limit": sys.getrecursionlimit(),
        "switch interval": sys.getswitchinterval(),
        "import path": list(sys.path),
        "hooks": (sys.excepthook, sys.displayhook, sys.gettrace(), sys.getprofile(), threading.excepthook),
        "streams": (id(sys.stdout), id(sys.stderr), id(sys.stdin)),
        "garbage collector": (gc.isenabled(), gc.get_threshold(), len(gc.callbacks)),
        "locale": locale.setlocale(locale.LC_ALL),
        "logging switches": (logging.root.manager.disable, logging.raiseExceptions, logging.getLogRecordFactory(), logging.getLoggerClass(), logging.getLevelName(20)),
    }
    if "matplotlib" in sys.modules:
        import matplotlib

        d["matplotlib settings"] = {k: repr(v) for k, v in dict.items(matplotlib.rcParams)}
    return d


def _umask():
    u = os.umask(0o22)
    os.umask(u)
    return u


def same_settings(before, mon, when):
    now = settings()
    mon.count("settings_compared", len(before))
    bad = [k for k in before if before[k] != now.get(k)]
    mon.check(not bad, "%s changed: %s" % (when, ", ".join(bad)), before=[_diff(before[k], now.get(k)) for k in bad][:3])
    return not bad


def _diff(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return {k: (a.get(k), b.get(k)) for k in set(a) | set(b) if a.get(k) != b.get(k)}
    return (a, b)


def resources():
    gc.collect()
    fds = {}
    for n in os.listdir("/proc/self/fd"):
        with contextlib.suppress(OSError):
            t = os.readlink("/proc/self/fd/" + n)
            if "/proc/" not in t:  # the listing itself
                fds[n] = t
    return {
        "open files": len(fds),
        "threads": threading.active_count(),
        "kernel threads": len(os.listdir("/proc/self/task")),
        "child processes": len(mp.active_children()),
        "exit handlers": atexit._ncallbacks(),
        "logging handlers": len(logging._handlerList),
        "handlers of loggers": sum(len(getattr(l, "handlers", ())) + len(getattr(l, "filters", ())) for l in [logging.root] + list(logging.root.manager.loggerDict.values())),
    }


def no_growth(before, mon, when):
    now = resources()
    for _ in range(20):  # workers and helper threads that are just ending
        if all(now[k] <= before[k] for k in before):
            break
        time.sleep(0.05)
        now = resources()
    mon.count("resources_compared", len(before))
    bad = {k: (before[k], now[k]) for k in before if now[k] > before[k]}
    mon.check(not bad, "%s: more %s than before" % (when, ", ".join(bad)), counts=bad)


def set_err(kind):
    if kind == "warn":
        np.seterr(all="warn")
    elif kind == "mixed":
        np.seterr(over="warn", divide="ignore", invalid="print", under="ignore")
    elif kind == "call":
        np.seterrcall(_noop)
        np.seterr(over="call", divide="ignore", invalid="ignore", under="call")
    else:
        np.seterr(all="ignore")


def _noop(*a):
    pass


@contextlib.contextmanager
def custom(kind):
    """Unusual process-wide settings; undone whatever happened."""
    keep = (np.geterr(), np.geterrcall(), np.get_printoptions(), warnings.filters[:], sys.getrecursionlimit())
    err, out = sys.stderr, sys.stdout
    sys.stderr = sys.stdout = io.StringIO()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        warnings.filterwarnings("ignore", "nothing of this kind %s" % kind)
        set_err(kind)
        np.set_printoptions(precision=5 if kind == "mixed" else 8)
        try:
            yield
        finally:
            np.seterrcall(keep[1])
            np.seterr(**keep[0])
            o = dict(keep[2])
            o.pop("override_repr", None)
            np.set_printoptions(**o)
            sys.stderr, sys.stdout = err, out


# ------------------------------------------------------------------ cases
def k_session(spec, mon):
    err = spec.get("err", "ignore")
    with custom(err):
        before = settings()

        def hooks(b):
            state = {"ok": True}

            def hook(rec, call):
                if state["ok"]:
                    state["ok"] = same_settings(before, mon, "while the objective runs")
                    mon.count("inside_objective")

            return hook

        S.run_session(spec, mon, lambda tr, b, m: same_settings(before, m, "after optimize()"), hooks=hooks)
        same_settings(before, mon, "after a session")


class Injected(Exception):
    pass


class Interrupt(BaseException):
    pass


class Plain:
    """Row-wise objective that keeps nothing; picklable."""

    def __init__(self, fail_at=None, exc=Injected):
        self.t, self.fail_at, self.exc = 0, fail_at, exc

    def __call__(self, x, **kw):
        self.t += 1
        if self.fail_at is not None and self.t > self.fail_at:
            raise self.exc("injected")
        return (np.asarray(x, dtype=float) ** 2).sum(axis=1)


def one(spec, k, refs):
    """One optimizer from construction to its end."""
    how = spec["how"]
    b = W.build(spec["conf"], spec["seed"] + k, record_topo=False)
    opt = b.opt
    procs = 2 if "parallel" in how else None
    fail = 1 if how in ("failing", "parallel_failing", "interrupt") else None
    if how == "parallel_failing":
        fail = 0
    f = Plain(fail, Interrupt if how == "interrupt" else Injected)
    verbose = how in ("verbose", "tolerance", "interrupt") or spec["conf"]["verbose"]
    for c in range(3 if how == "rerun" else 1):
        try:
            opt.optimize(f, 4 if "parallel" not in how else 2, n_processes=procs, verbose=verbose)
        except (Injected, Interrupt):
            pass
        if how == "rerun" and c == 1:
            opt.reset()
    for o in [opt, opt.swarm, opt.swarm.position, opt.swarm.velocity, opt.swarm.pbest_pos, opt.swarm.pbest_cost, f] + opt.pos_history + opt.velocity_history:
        if isinstance(o, np.ndarray) and b.init is not None and np.shares_memory(o, b.init):
            continue
        refs.append(weakref.ref(o))
    opt = f = b = None


def k_repeat(spec, mon):
    with custom("ignore"):
        refs = []
        before = settings()
        one(spec, 0, refs)
        one(spec, 1, refs)
        refs.clear()
        base = resources()
        for k in range(spec["reps"]):
            one(spec, 2 + k, refs)
        same_settings(before, mon, "after repeated use (%s)" % spec["how"])
        no_growth(base, mon, "after %d repetitions (%s)" % (spec["reps"], spec["how"]))
        gc.collect()
        alive = [type(r()).__name__ for r in refs if r() is not None]
        mon.count("weakly_watched", len(refs))
        # one object may legitimately be kept (the most recent one)
        per = len(refs) // spec["reps"]
        mon.check(len(alive) <= per, "objects of optimizers that are gone are still alive", alive=alive[:20], watched=len(refs))
        mon.count("repetitions", spec["reps"])
        mon.seen("repeated", spec["how"] + "/" + spec["conf"]["opt"] + "/" + str(spec["conf"]["topo"]))


@cost
def scalar(z, a=1.0):
    return float(np.dot(z, z)) * a


def k_others(spec, mon):
    what = spec["what"]
    with custom("ignore"):
        act = globals()["o_" + what]
        if "plots" in what:
            import matplotlib.pyplot  # noqa: F401  (its settings are among those compared)
        before = settings()
        try:
            act(spec)
            same_settings(before, mon, "after the first " + what)
            act(spec)
            base = resources()
            for k in range(spec["reps"]):
                act(spec)
                same_settings(before, mon, "after " + what)
        except LeftBehind as e:
            mon.fail("after a failure of the function of a plot processes are left behind (%s)" % e, what=what)
            return
        no_growth(base, mon, "after %d repetitions of %s" % (spec["reps"], what))
        mon.count("repetitions", spec["reps"])
        mon.seen("repeated", what)


def o_grid(spec):
    GridSearch(ps.single.LocalBestPSO, n_particles=4, dimensions=2, options={"c1": [1.0, 2.0], "c2": 1.0, "w": [0.5], "k": [1, 2], "p": 1},
               objective_func=fx.sphere, iters=2, bounds=(np.array([-1.0, -1.0]), np.array([1.0, 1.0]))).search()


def o_random(spec):
    RandomSearch(ps.single.LocalBestPSO, n_particles=4, dimensions=2, options={"c1": [1.0, 2.0], "c2": [1.0, 2.0], "w": [0.5, 0.9], "k": [1, 3], "p": 1},
                 objective_func=fx.sphere, iters=2, n_selection_iters=4).search(maximum=bool(spec["seed"] % 2))


def o_cost(spec):
    scalar(np.random.random_sample((7, 3)), a=2.0)
    ps.single.GlobalBestPSO(4, 2, {"c1": 1, "c2": 1, "w": 0.5}).optimize(scalar, 3, verbose=False, a=2.0)
    with contextlib.suppress(ZeroDivisionError):
        cost(lambda z: 1 / 0)(np.zeros((2, 2)))
    with contextlib.suppress(ValueError):
        cost(lambda z: z)(np.zeros((2, 2)))


FUNCS = ["ackley", "beale", "booth", "bukin6", "crossintray", "easom", "eggholder", "goldstein", "himmelblau", "holdertable", "levi", "matyas",
         "rastrigin", "rosenbrock", "schaffer2", "sphere", "threehump"]


def o_functions(spec):
    for n in FUNCS:
        x = np.full((3, 2), 0.5)
        if n == "bukin6":
            x[:, 0] = -10.0
        getattr(fx, n)(x)
        with contextlib.suppress(ValueError, IndexError):
            getattr(fx, n)(np.full((3, 2), 1e9))
        with contextlib.suppress(ValueError, IndexError):
            getattr(fx, n)(np.full((3, 3), 0.5))


def o_plots(spec, procs=None):
    import matplotlib.pyplot as plt
    from pyswarms.utils.plotters import plot_contour, plot_cost_history, plot_surface
    from pyswarms.utils.plotters.formatters import Animator, Designer, Mesher

    m = Mesher(func=fx.sphere, delta=0.5, limits=[(-1, 1), (-1, 1)])
    P = np.random.uniform(-1, 1, (3, 5, 2))
    plot_cost_history([3.0, 2.0, 1.0])
    a = plot_contour(P, mesher=m, designer=Designer(limits=[(-1, 1), (-1, 1)]), animator=Animator(repeat=False), n_processes=procs)
    b = plot_surface(m.compute_history_3d(P, n_processes=procs), mesher=m, n_processes=procs)
    a._draw_was_started = b._draw_was_started = True  # not rendered here
    # fewer points and particles than processes
    m = Mesher(func=fx.sphere, delta=1.0, limits=[(-1, 1), (-1, 1)])
    a = plot_contour(P[:1, :1], mesher=m, n_processes=procs and 5)
    a._draw_was_started = True
    m.compute_history_3d(P[:1, :2], n_processes=procs and 5)
    # settings of one's own, given axes, and plots that fail
    from matplotlib import cm

    k = dict(figsize=(3, 2), title_fontsize="small", text_fontsize="x-large", colormap=cm.plasma, legend="mine", limits=[(-2, 2), (-1, 3), (0, 4)], label=["a", "b", "c"])
    _, ax = plt.subplots()
    plot_cost_history([1.0, np.inf, -3.0], ax=ax, title="mine", designer=Designer(**k))
    for plot, hist, canvas in ((plot_contour, P, None), (plot_contour, P, plt.subplots()), (plot_surface, np.zeros((3, 4, 3)), None)):
        a = plot(hist, canvas=canvas, title="mine", mark=(0.5, 0.25, 0.0)[: hist.shape[2]], designer=Designer(**k), mesher=Mesher(func=fx.sphere, delta=0.5, limits=[(-1, 1), (-1, 1)], levels=[1, 2], alpha=0.7),
                 animator=Animator(interval=30, repeat_delay=5, repeat=True), n_processes=procs)
        a._draw_was_started = True
    for plot in (plot_cost_history, plot_contour, plot_surface):
        with contextlib.suppress(TypeError):
            plot(5)
    # a function that fails: its errors may be kept, its workers not
    m, kept = Mesher(func=fails, delta=0.5, limits=[(-1, 1), (-1, 1)]), []
    n = len(mp.active_children())
    for act in (lambda: plot_contour(P, mesher=m, n_processes=procs), lambda: m.compute_history_3d(P, n_processes=procs), lambda: plot_surface(np.zeros((3, 4, 3)), mesher=m, n_processes=procs)):
        try:
            act()
        except ZeroDivisionError as e:
            kept.append(e)
        if len(mp.active_children()) > n:
            raise LeftBehind(len(mp.active_children()) - n)
    if len(kept) != 3:
        raise LeftBehind("the error of the function did not reach the caller")
    kept.clear()
    plt.close("all")


class LeftBehind(Exception):
    pass


def fails(x):
    raise ZeroDivisionError("injected")


def o_plots_parallel(spec):
    o_plots(spec, procs=2)


def o_reporters(spec):
    d = os.environ["TMPDIR"]
    cfg = os.environ.pop("LOG_CFG", None)
    try:
        for k in range(3):
            r = Reporter(log_path=os.path.join(d, "rep%d.log" % k))
            r.log("something")
            r.print("text", 0)
            t = r.pbar(3)
            for _ in t:
                r.hook(best_cost=1)
        Reporter(config_path=os.path.join(d, "nothing.yml"), log_path=os.path.join(d, "rep0.log"))
    finally:
        if cfg is not None:
            os.environ["LOG_CFG"] = cfg
        Reporter()
        env.quiet()
        for k in range(3):
            with contextlib.suppress(OSError):
                os.unlink(os.path.join(d, "rep%d.log" % k))


def o_errors(spec):
    """Invalid use: it is rejected, and that is all that happens."""
    o = {"c1": 1.0, "c2": 1.0, "w": 0.5}
    for bad in (dict(ftol_iter=0), dict(ftol_iter=1.5), dict(init_pos=np.zeros((2, 9))), dict(bounds=(np.ones(2), np.ones(2) * 2), init_pos=np.zeros((4, 2)))):
        with contextlib.suppress(AssertionError, ValueError):
            ps.single.GlobalBestPSO(4, 2, dict(o), **bad)
    with contextlib.suppress(TypeError):
        ps.single.GeneralOptimizerPSO(4, 2, dict(o), topology="star")
    for k in ("c1", "c2", "w"):
        p = {q: v for q, v in o.items() if q != k}
        with contextlib.suppress(KeyError):
            ps.single.GlobalBestPSO(4, 2, p).optimize(fx.sphere, 2, verbose=False)
    with contextlib.suppress(KeyError):
        ps.single.GlobalBestPSO(4, 2, dict(o), bounds=(np.zeros(2), np.ones(2)), bh_strategy="bounce").optimize(fx.sphere, 2, verbose=False)


# ------------------------------------------------------------------ fresh processes
SCRIPT = r"""
import json, os, sys, random, signal, warnings, contextlib
what, seed, mods = sys.argv[1], int(sys.argv[2]), sys.argv[3]
import numpy as np, multiprocessing as mp, logging, threading, gc, locale
import matplotlib, matplotlib.pyplot, scipy.spatial, scipy.sparse, attr, yaml, tqdm, importlib, pkgutil
import logging.config, concurrent.futures, pprint
mp.set_start_method("fork")
np.seterr(divide="ignore", over="warn", under="warn", invalid="print")
np.set_printoptions(precision=3, suppress=True)
warnings.simplefilter("error", ResourceWarning)
random.seed(seed)
np.random.seed(seed)
matplotlib.rcParams["figure.dpi"] = 77
def load(name):
    src = open(os.path.join(mods, name)).read()
    return src
src = load("c26.py")
start = src.index("SIGNALS ="); end = src.index("def same_settings")
ns = dict(globals())
exec(compile(src[start:end], "settings", "exec"), ns)
before = ns["settings"]()
threads = threading.active_count()
children = 0
err = None
import pyswarms as ps
for m in pkgutil.walk_packages(ps.__path__, "pyswarms."):
    importlib.import_module(m.name)
after_import = ns["settings"]()
from pyswarms.utils.functions.single_obj import sphere
if what != "import":
    o = {"c1": 1.0, "c2": 1.0, "w": 0.5, "k": 2, "p": 2}
    for cls in (ps.single.GlobalBestPSO, ps.single.LocalBestPSO, ps.discrete.BinaryPSO):
        for v in (True, False):
            opt = cls(5, 2, dict(o))
            opt.optimize(sphere, 3, n_processes=2 if what == "parallel" else None, verbose=v)
            opt.reset()
after = ns["settings"]()
def bad(now):
    return [k for k in before if before[k] != now.get(k)]
print("RESULT" + json.dumps({"import": bad(after_import), "use": bad(after), "children": len(mp.active_children()), "state": [str(np.random.get_state()[0])],
   "drawn": what == "import" and not all(np.array_equal(a, b) for a, b in zip(np.random.RandomState(seed).get_state(), np.random.get_state())),
   "threads": threading.active_count() - threads, "compared": len(before), "files": sorted(os.listdir("."))}))
"""


def k_process(spec, mon):
    import shutil
    import tempfile

    d = tempfile.mkdtemp(prefix="proc")
    try:
        e = dict(os.environ, TMPDIR=d, HOME=d)
        e.pop("LOG_CFG", None)
        if spec["what"] == "session":
            e["LOG_CFG"] = os.path.join(os.environ["VMON_SCRATCH"], "log.yml") if "VMON_SCRATCH" in os.environ else ""
        work = os.path.join(d, "work")
        os.mkdir(work)
        os.mkdir(os.path.join(d, "tmp"))
        e["TMPDIR"] = os.path.join(d, "tmp")
        r = subprocess.run([env.PY, "-c", SCRIPT, spec["what"], str(spec["seed"]), os.path.dirname(os.path.abspath(__file__))], cwd=work, env=e, capture_output=True, text=True, timeout=100)
        got = [l for l in r.stdout.splitlines() if l.startswith("RESULT")]
        if r.returncode or not got:
            if env.REPO in r.stderr:
                mon.fail("the code fails in a fresh process (%s)" % spec["what"], trace=r.stderr[-1200:])
                return
            raise core.HarnessError(r.stderr[-1500:])
        g = json.loads(got[0][6:])
        mon.check(not g["import"], "importing the package changed: " + ", ".join(g["import"]))
        mon.check(not g["use"], "using the package changed: " + ", ".join(g["use"]))
        mon.check(not g["drawn"], "importing the package draws from numpy's global generator")
        mon.check(g["children"] == 0, "processes are left behind", n=g["children"])
        # a progress bar may start tqdm's one monitor thread
        mon.check(g["threads"] <= 1, "threads are left behind", n=g["threads"])
        files = [f for f in g["files"] if not f.startswith("report.log")]
        mon.check(not files, "files other than the report log appear in the working directory", files=g["files"])
        if spec["what"] == "session":
            mon.check(not g["files"], "files appear in the working directory although a logging configuration without files is given", files=g["files"])
        mon.check(not os.listdir(e["TMPDIR"]), "temporary files are left behind", files=os.listdir(e["TMPDIR"]))
        mon.count("fresh_processes")
        mon.count("settings_compared", g["compared"] * 2)
    finally:
        shutil.rmtree(d, ignore_errors=True)
