#!/usr/bin/env python3
"""Entry point of every check:  run.py PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE]

exit 0  held on everything explored (KNOWN-FINDING lines may be printed)
exit 1  a VIOLATION line was printed
exit 2  no answer (harness error, watchdog, monitor never reached)"""
import argparse
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from mon import core, env  # noqa: E402

LOGCFG = """version: 1
disable_existing_loggers: false
handlers:
  none: {class: logging.NullHandler}
root: {level: INFO, handlers: [none]}
"""


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--jobs", type=int, default=0)
    ap.add_argument("--replay")
    ap.add_argument("--slow", action="store_true", help="list the slowest cases")
    ap.add_argument("--dump", action="store_true")
    a = ap.parse_args()
    a.prop = a.prop.upper()
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="vmon-%s-" % a.prop)
    os.chmod(scratch, 0o755)
    try:
        return go(a, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def launch(cmd, environ, cwd, log):
    return subprocess.Popen(cmd, env=environ, cwd=cwd, stdin=subprocess.DEVNULL, stdout=log, stderr=log, start_new_session=True)


def killpg(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass


def go(a, scratch, t0):
    environ = env.base_env(scratch)
    cfg = os.path.join(scratch, "log.yml")
    with open(cfg, "w") as f:
        f.write(LOGCFG)
    environ["LOG_CFG"] = cfg
    environ["VMON_SCRATCH"] = scratch
    if a.replay:
        with open(a.replay) as f:
            rep = json.load(f)
        specfile = os.path.join(scratch, "replay.json")
        with open(specfile, "w") as f:
            json.dump(rep["spec"], f)
        r = subprocess.run([env.PY, "-m", "mon.replay", a.prop, specfile, scratch], env=environ, cwd=scratch)
        return r.returncode
    njobs = a.jobs or min(8, os.cpu_count() or 1)
    procs = []
    for s in range(njobs):
        d = os.path.join(scratch, "w%d" % s)
        os.makedirs(d)
        out = os.path.join(scratch, "out%d.jsonl" % s)
        log = open(os.path.join(scratch, "log%d.txt" % s), "wb")
        e = dict(environ, TMPDIR=d)
        p = launch([env.PY, "-m", "mon.core", a.prop, a.tier, str(a.seed), str(s), str(njobs), out, d], e, d, log)
        procs.append((p, out, log.name))
    deadline = t0 + (780 if a.tier == "quick" else 3600)
    timed_out = False
    for p, _, _ in procs:
        try:
            p.wait(max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            timed_out = True
            break
    for p, _, _ in procs:
        killpg(p)
        p.wait()
    results, problems = [], []
    for s, (p, out, log) in enumerate(procs):
        done = False
        if os.path.exists(out):
            for line in open(out):
                try:
                    r = json.loads(line)
                except ValueError:
                    continue
                if r.get("done"):
                    done = True
                else:
                    results.append(r)
        if not done:
            tail = open(log, errors="replace").read()[-2000:]
            problems.append("worker %d ended early%s: %s" % (s, " (watchdog)" if timed_out else "", tail))
    return judge(a, results, problems, t0)


def judge(a, results, problems, t0):
    results.sort(key=lambda r: r["i"])
    known = {k["key"]: k for k in core.load_known() if k["property"] == a.prop and k.get("status") == "known"}
    viol, hits = [], {}
    counts, sets = {}, {}
    for r in results:
        for k, v in r["counts"].items():
            counts[k] = counts.get(k, 0) + v
        for k, v in r["sets"].items():
            sets.setdefault(k, set()).update(v)
        for f in r["fails"]:
            if f["key"] in known:
                hits.setdefault(f["key"], []).append((r, f))
            else:
                viol.append((r, f))
        if r["status"] not in ("ok", "hang"):
            problems.append("case %s (%s): %s %s" % (r["i"], r["spec"].get("kind"), r["status"], (r["note"] or "")[-1500:]))
    import importlib

    meta = json.load(open(os.path.join(HERE, "mon", "meta.json")))[a.prop]
    nontriv = [r for r in results if r["counts"].get("checks", 0) > 0]
    distinct = len({core.digest({k: v for k, v in r["spec"].items() if k != "note"}) for r in nontriv})
    for need in meta.get("required", []) + ["checks"]:
        if counts.get(need, 0) == 0 and not viol:
            problems.append("deciding monitor '%s' was never reached" % need)
    for key, k in known.items():
        if key in hits:
            print("KNOWN-FINDING: property=%s %s" % (a.prop, k["what"]))
    wall = round(time.time() - t0, 2)
    sample_rows = nontriv[:: max(1, len(nontriv) // 3)][:3]
    ev = {
        "property": a.prop,
        "tier": a.tier,
        "seed": a.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": len(results),
            "distinct_nontrivial": distinct,
            "rule": meta["rule"] + " Non-trivial: at least one monitor comparison was made in the case; distinct: by the full case specification including its seed.",
            "samples": [{"spec": r["spec"], "observed": r["counts"]} for r in sample_rows],
            "observed": dict(sorted(counts.items())),
            "distinct_states": {k: len(v) for k, v in sorted(sets.items())},
            "known_finding_hits": {k: len(v) for k, v in hits.items()},
        },
        "assumptions": meta.get("assumptions", []),
        "wall_s": wall,
        "violations": len(viol),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    if a.slow:
        for r in sorted(results, key=lambda r: -r["secs"])[:8]:
            print("slow", r["secs"], r["i"], json.dumps(r["spec"])[:200])
    print("%s %s seed=%d: %d cases, %d comparisons, %.1fs" % (a.prop, a.tier, a.seed, len(results), counts.get("checks", 0), wall))
    if a.dump:
        print(json.dumps(ev["coverage"]["observed"], indent=1), json.dumps(ev["coverage"]["distinct_states"]))
    if viol:
        rdir = os.path.join(HERE, "replays")
        os.makedirs(rdir, exist_ok=True)
        shown = set()
        n = 0
        for r, f in viol:
            if f["msg"][:60] in shown:
                continue
            shown.add(f["msg"][:60])
            path = os.path.join(rdir, "%s-%s.json" % (a.prop, core.digest([r["spec"], f["msg"]])))
            with open(path, "w") as fh:
                json.dump({"property": a.prop, "spec": r["spec"], "fail": f}, fh, indent=1, default=str)
            print("VIOLATION property=%s replay=%s" % (a.prop, path))
            print("  " + f["msg"])
            for k, v in list(f["detail"].items())[:6]:
                print("    %s = %s" % (k, v if k != "trace" else "\n" + v.encode().decode("unicode_escape", "replace")))
            n += 1
            if n >= 4:
                break
        return 1
    if problems:
        print("NO ANSWER for %s:" % a.prop)
        for p in problems[:5]:
            print("  " + p)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
