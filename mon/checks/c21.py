"""C21: reporting. Monitors: every byte on file descriptors 1 and 2, every log record, every file line."""
import contextlib
import json
import logging
import os
import pprint
import re
import shutil
import subprocess
import sys
import tempfile
import warnings

import numpy as np

from .. import core, env
from .. import sessions as S
from .. import work as W
from .c13 import same_state, state


def cases(tier, seed):
    rng = S.rng_for("C21", seed, tier)
    q = 1 if tier == "quick" else 12
    i = 0
    for opt, topo in S.ALL_KINDS:
        for kind in ("quiet", "verbose"):
            for v in range(4):
                i += 1
                c = S.base_conf(opt, n=6, d=2, topo=topo, ftol=[None, 1e-2][v % 2], ftol_iter=2, init=[None, "float"][v // 2])
                yield {"kind": kind, "seed": i, "conf": c, "procs": None, "calls": [S.row(["sphere", "const"][v % 2], 9), S.row("negsphere", 1 + v)]}
            yield {"kind": kind, "seed": i, "conf": S.base_conf(opt, n=5, d=2, topo=topo), "procs": 2, "calls": [S.row("rastrigin", 3)]}
        yield {"kind": "failing", "seed": i, "conf": S.base_conf(opt, n=5, d=2, topo=topo), "at": i % 3}
        for sub in ("default", "env", "debug"):
            yield {"kind": "process", "seed": i, "conf": S.base_conf(opt, n=5, d=2, topo=topo), "how": sub}
    for k in range(600 * q):
        s = S.gen_session(rng, max_iters=13, p_oh=0.3, p_ftol=0.3)
        s["kind"] = ["quiet", "verbose"][k % 2]
        s["procs"] = None
        yield s
    for k in range(400 * q):
        yield {"kind": "reporter", "how": ["log_path", "config_path", "env", "both", "logger", "missing"][k % 6],
               "level": W.pick(rng, ["DEBUG", "INFO", "WARNING", "ERROR"])}
    for k in range(40 * q):
        yield {"kind": "printer"}
        yield {"kind": "pbar", "iters": int(W.pick(rng, [0, 1, 2, 7, 30, 120]))}
    for k, t in enumerate([101, 256, 999, 1000, 1001, 2500]):
        yield {"kind": "pbar", "iters": t}
        opt, topo = (S.ALL_KINDS[:5] + S.ALL_KINDS[-1:])[k]
        for kind in ("verbose", "quiet"):
            yield {"kind": kind, "seed": 900 + k, "conf": S.base_conf(opt, n=4, d=2, topo=topo, ftol=[None, 1e-9][k % 2], ftol_iter=5), "procs": None, "calls": [S.script("decreasing", t, 4), S.row("sphere", 2)]}


def run(spec, mon):
    return globals()["k_" + spec["kind"]](spec, mon)


# --------------------------------------------------------------- instruments
class Records(logging.Handler):
    def __init__(self):
        super().__init__(0)
        self.rec, self.full = [], []

    def emit(self, r):
        self.rec.append((r.levelno, r.getMessage(), r.name))
        self.full.append(r)


@contextlib.contextmanager
def records():
    """All records that reach the package's loggers, at any level they let through."""
    h = Records()
    log = logging.getLogger("pyswarms")
    log.addHandler(h)
    try:
        yield h.rec
    finally:
        log.removeHandler(h)


@contextlib.contextmanager
def streams():
    """Everything written to file descriptors 1 and 2, by this process or its children."""
    out = {}
    files = [tempfile.TemporaryFile() for _ in range(2)]
    sys.stdout.flush()
    sys.stderr.flush()
    keep = [os.dup(1), os.dup(2)]
    try:
        os.dup2(files[0].fileno(), 1)
        os.dup2(files[1].fileno(), 2)
        yield out
    finally:
        sys.stdout.flush()
        sys.stderr.flush()
        os.dup2(keep[0], 1)
        os.dup2(keep[1], 2)
        for k in keep:
            os.close(k)
        for name, f in zip(("out", "err"), files):
            f.seek(0)
            out[name] = f.read().decode(errors="replace")
            f.close()


@contextlib.contextmanager
def alarms():
    """Every Python warning (numpy's included, as by default) that would be printed."""
    with warnings.catch_warnings(record=True) as seen, np.errstate(divide="warn", over="warn", invalid="warn", under="ignore"):
        warnings.simplefilter("always")
        for quiet in (DeprecationWarning, PendingDeprecationWarning, ResourceWarning, ImportWarning):
            warnings.simplefilter("ignore", quiet)  # as by default
        yield seen


def go(b, call, s, verbose, procs):
    """One optimize() call with all of its output."""
    tr = None
    np.random.seed(s % 2**32)
    with records() as rec, streams() as st, alarms() as st_warn:
        if procs:
            f = W.RowObj(call["obj"]["row"], call["obj"].get("params"))
            res = b.opt.optimize(f, call["iters"], n_processes=procs, verbose=verbose, **call["kwargs"])
            marks = None
        else:
            marks = []
            tr = W.do_call(b, call, s, hook=lambda r, c: marks.append(len(rec)), verbose=verbose)
            res = tr.result
    st["warn"] = ["%s: %s (%s:%d)" % (w.category.__name__, w.message, w.filename, w.lineno) for w in st_warn]
    return res, rec, st, marks


def twin(spec, verbose):
    c, s = spec["conf"], spec["seed"] % 2**32
    np.random.seed(s)
    b = W.build(c, s, record_topo=False)
    outs = []
    for i, call in enumerate(spec["calls"]):
        if call.get("reset"):
            b.opt.reset()
        h0 = len(b.opt.cost_history)
        outs.append((call,) + go(b, call, s + i, verbose, spec["procs"]) + (list(b.opt.cost_history[h0:]),))
    return b, outs


def k_quiet(spec, mon):
    b, outs = twin(spec, False)
    for call, res, rec, st, marks, ch in outs:
        mon.check(not rec, "verbose=False: a log record was emitted", records=rec[:3])
        mon.check(st["out"] == "", "verbose=False: something was printed to stdout", text=st["out"][:200])
        mon.check(st["err"] == "", "verbose=False: something was printed to stderr", text=st["err"][:200])
        if not excessive(b):
            mon.check(not st["warn"], "verbose=False: a warning was printed to stderr", warnings=st["warn"][:3])
        mon.count("quiet_runs")


def excessive(b):
    """Swarms that fly towards infinity, and means over unlimited costs, may be warned about."""
    big = any(not (np.abs(np.asarray(v, float)) < 1e100).all() for h in (b.opt.pos_history[-3:], b.opt.velocity_history[-3:]) for v in h)
    return big or not (np.abs(np.asarray(b.opt.swarm.velocity, float)) < 1e100).all() or any(c == -np.inf or abs(c) > 1e300 and np.isfinite(c) for h in (b.opt.mean_pbest_history, b.opt.cost_history) for c in np.ravel(h))


def k_verbose(spec, mon):
    b, outs = twin(spec, True)
    for call, res, rec, st, marks, ch in outs:
        judge_records(b, call, res, rec, marks, mon)
        judge_bar(call, st["err"], ch, mon, spec["conf"]["ftol"])
        mon.check(st["out"] == "", "a run prints to stdout", text=st["out"][:200])
        mon.count("verbose_runs")
    q, quiet = twin(spec, False)
    for x, y in zip(outs, quiet):
        mon.check(float(x[1][0]) == float(y[1][0]) or (np.isnan(x[1][0]) and np.isnan(y[1][0])), "verbosity changes the result", verbose=x[1], quiet=y[1])
        mon.check(np.array_equal(x[1][1], y[1][1]), "verbosity changes the result", verbose=x[1], quiet=y[1])
    msg = same_state(state(b.opt), state(q.opt))
    mon.check(msg is None, "verbosity changes the histories", why=msg)


def judge_records(b, call, res, rec, marks, mon):
    rec_i = [(k, r) for k, r in enumerate(rec) if r[0] > logging.DEBUG]
    mon.check(all(r[0] == logging.INFO for _, r in rec_i), "a normal run logs at another level than INFO", records=rec)
    mon.count("records", len(rec_i))
    if not mon.check(len(rec_i) >= 2, "verbose=True: start and end are not both logged", records=rec):
        return
    k0, first = rec_i[0]
    k1, last = rec_i[-1]
    mon.check(re.search(r"(?<![\w.])%d(?![\w.])" % call["iters"], first[1]) is not None, "the start record does not state the iteration count",
              record=first, iters=call["iters"])
    for k, v in b.options.items():
        mon.check("%r: %r" % (k, v) in first[1] or "%s=%r" % (k, v) in first[1], "the start record does not state the user's options", record=first, options=b.options)
    cost, pos = res
    mon.check(str(cost) in last[1], "the end record does not state the returned cost", record=last, cost=cost)
    mon.check(str(pos) in last[1], "the end record does not state the returned position", record=last, pos=pos)
    if marks:
        mon.check(k0 < marks[0], "the start is not logged before the first evaluation")
        mon.check(k1 >= marks[-1], "the end is logged before the last evaluation")
        mid = {len(rec[:m]) for m in marks}
        mon.check(len(mid) == 1, "records are emitted between the evaluations", marks=marks, records=rec)


def shown(text):
    return [float(m) for m in re.findall(r"best_cost=\s*([-+0-9.eEinfa]+)", text)]


def judge_bar(call, text, ch, mon, ftol=None):
    """The postfix must walk through the best costs of the run and end with the last one."""
    vals = shown(text)
    if not mon.check(len(vals) > 0, "verbose=True: no progress bar with the best cost was shown", text=text[-300:]):
        return
    tot = {int(b) for a, b in re.findall(r"(\d+)/(\d+)", text)}
    mon.check(tot == {call["iters"]}, "the progress bar runs over another number of iterations", totals=sorted(tot), iters=call["iters"])
    done = [int(a) for a, b in re.findall(r"(\d+)/(\d+)", text)]
    if len(ch) == call["iters"]:
        # a run may also stop by its tolerance in the very last iteration
        mon.check(max(done) >= call["iters"] - (0 if ftol is None else 1), "the progress bar does not reach the end", done=max(done), iters=call["iters"])
    else:
        mon.check(max(done) < call["iters"], "the progress bar reaches the end of an early stopped run", done=max(done), ran=len(ch))

    def near(a, b):
        return a == b or (np.isnan(a) and np.isnan(b)) or abs(a - b) <= 0.0051 * max(abs(a), abs(b))

    j = 0
    for v in vals:
        k = j
        while k < len(ch) and not near(v, float(ch[k])):
            k += 1
        if not mon.check(k < len(ch), "the progress bar shows a cost that is not the current best cost", shown=v, history=ch[max(0, j - 1): j + 5]):
            return
        j = k
    mon.check(near(vals[-1], float(ch[-1])), "the progress bar ends with another cost than the best one", shown=vals[-1], want=ch[-1])
    # refreshed in every iteration: every cost of the run appears
    j = 0
    for c in ch:
        k = j
        while k < len(vals) and not near(vals[k], float(c)):
            k += 1
        if not mon.check(k < len(vals), "a best cost of the run is never shown on the progress bar", cost=c, shown=vals[:20]):
            return
        j = k
    mon.count("bar_states", len(vals))


def k_failing(spec, mon):
    np.random.seed(spec["seed"])
    b = W.build(spec["conf"], spec["seed"], record_topo=False)
    k = {"n": 0}

    def f(x):
        k["n"] += 1
        if k["n"] > spec["at"]:
            raise W.Boom("x")
        return (x ** 2).sum(axis=1)

    for verbose in (True, False):
        k["n"] = 0
        err = None
        with records() as rec, streams() as st:
            try:
                b.opt.optimize(f, 5, verbose=verbose)
            except W.Boom as e:
                err = e
        mon.check(err is not None, "the error of the objective was swallowed")
        mon.check(not any("finished" in r[1].lower() for r in rec), "a failed run reports that it finished", records=rec)
        if not verbose:
            mon.check(not rec and st["out"] == "" and st["err"] == "", "verbose=False: a failing run reports something", records=rec, streams=st)
        else:
            mon.check(len([r for r in rec if r[0] == logging.INFO]) == 1, "a failed run does not log exactly its start", records=rec)
        mon.count("failed_runs")


CHILD = """
import json, logging, sys
import numpy as np
import pyswarms
from mon import work as W
c, s = json.loads(sys.argv[1])
np.random.seed(s)
b = W.build(c, s, record_topo=False)
f = W.RowObj("sphere")
out = []
def lines(p):
    try:
        return open(p).read().splitlines()
    except FileNotFoundError:
        return None
p = sys.argv[2]
before = lines(p) or []
sys.stderr.flush(); print("MARK0", flush=True); print("MARK0", file=sys.stderr, flush=True)
b.opt.optimize(f, 4, verbose=False)
mid = lines(p) or []
sys.stderr.flush(); print("MARK1", flush=True); print("MARK1", file=sys.stderr, flush=True)
r = b.opt.optimize(f, 3, verbose=True)
after = lines(p) or []
sys.stderr.flush(); print("MARK2", flush=True); print("MARK2", file=sys.stderr, flush=True)
print("RES" + json.dumps({"before": before, "mid": mid, "after": after, "cost": str(r[0]), "pos": str(r[1])}))
"""


def k_process(spec, mon):
    """A fresh interpreter with the default configuration, with LOG_CFG, and with LOG_CFG at level DEBUG."""
    d = tempfile.mkdtemp(prefix="rep")
    e = dict(os.environ)
    e.pop("LOG_CFG", None)
    target = os.path.join(d, "report.log")
    if spec["how"] != "default":
        target = os.path.join(d, "mine.log")
        cfg = os.path.join(d, "c.yml")
        with open(cfg, "w") as f:
            f.write(yaml_config(target, {"env": "WARNING", "debug": "INFO"}[spec["how"]]))
        e["LOG_CFG"] = cfg
    try:
        p = subprocess.run([env.PY, "-c", CHILD, json.dumps([spec["conf"], spec["seed"]]), target], cwd=d, env=e, capture_output=True, text=True, timeout=100)
        if p.returncode != 0:
            raise core.HarnessError(p.stderr[-800:])
        r = json.loads(p.stdout.split("RES", 1)[1])
        q = [p.stdout.split("MARK"), p.stderr.split("MARK")]
        mon.check(q[0][1].strip() == "0", "verbose=False prints to stdout", text=q[0][1])
        mon.check(q[1][1].strip() == "0", "verbose=False prints to stderr", text=q[1][1])
        mon.check(r["mid"] == r["before"], "verbose=False writes to the log file", lines=r["mid"][len(r["before"]):])
        new = r["after"][len(r["mid"]):]
        if spec["how"] == "env":
            mon.check(new == [], "a record below the configured level was written", lines=new)
            mon.check("best_cost=" in p.stderr, "verbose=True shows no progress bar", text=p.stderr[-200:])
        else:
            text = "\n".join(new)
            mon.check(r["cost"] in text and r["pos"] in text and "INFO" in text, "the log file does not hold the end of the run", lines=new, want=r["cost"])
            mon.check("3 iters" in text or re.search(r"\b3\b", text) is not None, "the log file does not hold the start of the run", lines=new)
            if spec["how"] == "default":
                mon.check(r["cost"] in p.stderr.split("MARK1")[1], "the default configuration does not log to the console", text=p.stderr[-300:])
        if spec["how"] != "default":
            mon.check(not os.path.exists(os.path.join(d, "report.log")), "report.log is written although LOG_CFG configures other targets")
        mon.count("fresh_processes")
    finally:
        shutil.rmtree(d)


# --------------------------------------------------------------- Reporter
def yaml_config(path, level, handler_level="NOTSET"):
    return """version: 1
disable_existing_loggers: false
formatters:
  plain: {format: '%%(levelname)s|%%(name)s|%%(message)s'}
handlers:
  f: {class: logging.FileHandler, filename: '%s', formatter: plain, level: %s}
root: {level: %s, handlers: [f]}
""" % (path, handler_level, level)


LEVELS = [0, 1, 5, 10, 15, 20, 25, 30, 40, 50]


@contextlib.contextmanager
def own_logging():
    """The cases may reconfigure the root logger; put it back afterwards."""
    keep = os.environ.get("LOG_CFG")
    root = logging.getLogger()
    hs, lv = list(root.handlers), root.level
    try:
        yield
    finally:
        if keep is None:
            os.environ.pop("LOG_CFG", None)
        else:
            os.environ["LOG_CFG"] = keep
        for h in list(root.handlers):
            root.removeHandler(h)
            h.close()
        for h in hs:
            root.addHandler(h)
        root.setLevel(lv)


def k_reporter(spec, mon):
    from pyswarms.utils import Reporter

    g = np.random.default_rng(spec["seed"])
    d = tempfile.mkdtemp(prefix="rep")
    here = os.getcwd()
    own, other, cfgp = (os.path.join(d, x) for x in ("own.log", "other.log", "c.yml"))
    how, level = spec["how"], spec["level"]
    threshold = getattr(logging, level)
    try:
        with own_logging():
            os.chdir(d)
            os.environ.pop("LOG_CFG", None)
            kw, target, seen = {}, own, None
            with open(cfgp, "w") as f:
                f.write(yaml_config(other, level))
            if how == "log_path":
                kw, threshold = {"log_path": own}, logging.INFO
            elif how == "config_path":
                kw, target = {"config_path": cfgp}, other
                if g.random() < 0.5:
                    kw["log_path"] = own
            elif how == "env":
                os.environ["LOG_CFG"] = cfgp
                kw, target = {"log_path": own} if g.random() < 0.5 else {}, other
            elif how == "both":
                bad = os.path.join(d, "e.yml")
                with open(bad, "w") as f:
                    f.write(yaml_config(own, "DEBUG"))
                os.environ["LOG_CFG"] = bad
                kw, target = {"config_path": cfgp}, other
            elif how == "missing":
                # an unreadable configuration falls back to the default targets
                kw, threshold = {"config_path": os.path.join(d, "nowhere.yml"), "log_path": own}, logging.INFO
            elif how == "logger":
                lg = logging.getLogger("vmon.own%d" % spec["seed"])
                lg.setLevel(threshold)
                lg.propagate = False
                seen = Records()
                lg.addHandler(seen)
                kw = {"logger": lg, "log_path": own}
            msgs, wanted_extra = [], {}
            with streams() as st:
                rep = Reporter(**kw)
                for i in range(int(g.integers(5, 40))):
                    lvl = int(g.choice(LEVELS)) if g.random() < 0.9 else None
                    text = "message-%d-%d" % (spec["seed"] % 1000, i)
                    if g.random() < 0.3:
                        rep.log("message-%d-%s", 20 if lvl is None else lvl, spec["seed"] % 1000, i)
                    elif how == "logger" and g.random() < 0.3:
                        rep.log("message-%(swarm)d-" + str(i), 20 if lvl is None else lvl, {"swarm": spec["seed"] % 1000}, extra={"particle": i})
                        wanted_extra[text] = i
                    elif lvl is None:
                        rep.log(text)
                    else:
                        rep.log(text, lvl=lvl) if g.random() < 0.5 else rep.log(text, lvl)
                    msgs.append((20 if lvl is None else lvl, text))
            want = [m for l, m in msgs if l >= threshold and l > 0]
            if seen is not None:
                got = [m for _, m, _ in seen.rec]
                mon.check([(l, m) for l, m, _ in seen.rec] == [(l, m) for l, m in msgs if l >= threshold], "a given logger does not receive exactly the messages at or above its level",
                          got=got[:5], want=want[:5])
                mon.check(all(r.particle == wanted_extra[r.getMessage()] if hasattr(r, "particle") else r.getMessage() not in wanted_extra for r in seen.full),
                          "arguments of log() do not reach the logger", want=wanted_extra)
                mon.check(not os.path.exists(own) or open(own).read() == "", "messages for a given, not propagating logger are written elsewhere")
            else:
                text = open(target).read() if os.path.exists(target) else ""
                got = re.findall(r"message-\d+-\d+", text)
                mon.check(got == want, "the log does not hold exactly the messages at or above the level", got=got[:6], want=want[:6], level=threshold, how=how)
                if how in ("log_path", "missing"):
                    mon.check(re.findall(r"message-\d+-\d+", st["err"]) == want, "the console does not show exactly the messages at or above the level", text=st["err"][:200])
                elif how != "logger":
                    mon.check(st["err"] == "", "a configuration without console handler writes to the console", text=st["err"][:200])
                mon.check(not os.path.exists(os.path.join(d, "report.log")), "report.log is written although other targets are configured", how=how)
                if target is other:
                    mon.check(not os.path.exists(own) or open(own).read() == "", "a target that was overridden is written to", how=how)
                for l, m in msgs:
                    if l >= threshold and l in (10, 20, 30, 40, 50):
                        line = [x for x in text.splitlines() if x.endswith(m)]
                        mon.check(len(line) == 1 and logging.getLevelName(l) in line[0], "a message is logged with another level", line=line, level=l)
            mon.count("messages", len(msgs))
            mon.count("delivered", len(want))
            mon.seen("reporters", "%s/%s" % (how, threshold))
    finally:
        os.chdir(here)
        shutil.rmtree(d)


def outer_lines(text):
    """What a terminal shows in the end: every line as overwritten after its last carriage return."""
    out = []
    for line in text.split("\n"):
        shown = ""
        for part in line.split("\r"):
            shown = part + shown[len(part):]
        if "thing" in shown:
            out.append(shown)
    return out


class Printer:
    def __init__(self):
        self.got = []

    def pprint(self, m):
        self.got.append(m)


def k_printer(spec, mon):
    from pyswarms.utils import Reporter

    g = np.random.default_rng(spec["seed"])
    own = Printer()
    with own_logging(), streams() as st:
        rep = Reporter(printer=own)
        std = Reporter()
        std2 = Reporter(printer=pprint.PrettyPrinter(width=20))
        a, b = [], []
        for i in range(30):
            m = [("text", i), {"b": i, "a": [1, 2]}, "plain %d" % i][i % 3]
            v, t = int(g.integers(-2, 5)), int(g.integers(-2, 5))
            args = (v,) if g.random() < 0.3 else (v, t)
            if len(args) == 1:
                t = 0
            rep.print(m, *args)
            std.print(m, *args)
            if v > t:
                a.append(m)
                b.append(pprint.pformat(m))
            mon.count("prints")
            mon.count("prints_at_threshold", int(v == t))
        sys.stdout.flush()
        mark = len(b)
        std2.print({"key" * 4: "value" * 4, "z": 1}, 1)
    mon.check(own.got == a, "a printer does not get exactly the messages whose verbosity exceeds the threshold", got=own.got[:5], want=a[:5])
    want = "".join(x + "\n" for x in b) + pprint.pformat({"key" * 4: "value" * 4, "z": 1}, width=20) + "\n"
    mon.check(st["out"] == want or st["out"].replace("\n\n", "\n") == want, "the console does not show exactly the messages whose verbosity exceeds the threshold", got=st["out"][:200], want=want[:200])
    mon.check(st["err"] == "", "print() writes to stderr", text=st["err"][:200])


def k_pbar(spec, mon):
    from pyswarms.utils import Reporter

    g = np.random.default_rng(spec["seed"])
    vals = [float(v) for v in np.round(g.normal(size=max(1, spec["iters"])) * 10, 2)]
    seen = []
    with own_logging(), streams() as st:
        rep = Reporter()
        other = Reporter()
        for i in rep.pbar(spec["iters"], "thing%d" % (spec["seed"] % 100)):
            rep.hook(best_cost=vals[i], extra=i)
            seen.append(i)
            if i == 1 and spec["iters"] < 100:
                # another reporter's bar is independent
                for _ in other.pbar(2, "inner"):
                    other.hook(inner=77)
    if spec["iters"]:
        mon.check(len([t for t in outer_lines(st["err"]) if "%d/%d" % (spec["iters"], spec["iters"]) in t]) == 1, "the finished progress bar does not stay on the console", text=st["err"][-200:])
    mon.check(seen == list(range(spec["iters"])), "the progress bar does not count the iterations", got=seen, want=spec["iters"])
    mon.check("thing%d" % (spec["seed"] % 100) in st["err"], "the progress bar does not show its description", text=st["err"][:200])
    outer = [t for t in re.split(r"[\r\n]", st["err"]) if "thing" in t]
    pairs = re.findall(r"best_cost=\s*([-+0-9.e]+), extra=(\d+)", "\n".join(outer))
    mon.check(all(float(a) == float("%.3g" % vals[int(b)]) or float(a) == vals[int(b)] for a, b in pairs), "the progress bar shows other values than given to hook()", got=pairs[:6], want=vals[:6])
    mon.check({int(b) for _, b in pairs} == set(range(spec["iters"])), "hook() is not shown in every iteration", got=pairs[:6])
    mon.check(all("inner=" not in t for t in outer), "a reporter's hook changes another reporter's progress bar")
    mon.count("bar_iterations", len(seen))
