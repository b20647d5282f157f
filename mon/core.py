"""Case runner: a check is a list of JSON specs and a function that executes one
of them against the real code while a Mon object collects what was observed."""
import hashlib
import importlib
import json
import os
import random
import signal
import sys
import time
import traceback

MAX_FAILS = 6  # per worker; enough to report, cheap to stop


class HarnessError(Exception):
    pass


class CaseTimeout(BaseException):
    pass


def digest(obj):
    return hashlib.sha1(json.dumps(obj, sort_keys=True, default=str).encode()).hexdigest()[:16]


class Mon:
    """Collects counters (what the monitors observed) and failures (what they refute)."""

    def __init__(self):
        self.counts = {}
        self.fails = []
        self.sets = {}

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + int(n)

    def seen(self, name, value):
        """A distinct state/configuration the run reached (for evidence)."""
        self.sets.setdefault(name, set()).add(str(value))

    def fail(self, msg, key=None, **detail):
        if len(self.fails) < 20:
            self.fails.append({"msg": msg, "key": key, "detail": {k: short(v) for k, v in detail.items()}})

    def check(self, cond, msg, key=None, **detail):
        self.count("checks")
        if not cond:
            self.fail(msg, key, **detail)
        return bool(cond)


def short(v, n=400):
    try:
        s = repr(v)
    except Exception as e:  # pragma: no cover
        s = "<%s>" % e
    return s if len(s) <= n else s[:n] + "..."


def case_seed(prop, seed, tier, idx):
    h = hashlib.sha256(("%s|%s|%s|%s" % (prop, seed, tier, idx)).encode()).digest()
    return int.from_bytes(h[:4], "big")


def in_repo(tb):
    from . import env

    root = os.path.realpath(env.REPO) + os.sep
    for fr in traceback.extract_tb(tb):
        if os.path.realpath(fr.filename).startswith(root):
            return True
    return False


def run_one(module, spec, limit):
    """Execute one spec. Returns a dict with counts/fails/status."""
    mon, status, note, secs, inside = attempt(module, spec, limit)
    if status == "timeout":
        # a case takes about a second; make sure that it really does not end
        again = attempt(module, spec, limit)
        if again[1] == "timeout":
            if inside and again[4]:
                mon.fail("the code does not return within %d s" % limit, trace=again[2])
                status = "hang"
        else:
            mon, status, note, secs = again[:4]
            mon.count("retried_after_timeout")
    return {
        "spec": spec,
        "status": status,
        "note": note,
        "counts": mon.counts,
        "sets": {k: sorted(v)[:4000] for k, v in mon.sets.items()},
        "fails": mon.fails,
        "secs": secs,
    }


def attempt(module, spec, limit):
    import numpy as np

    mon = Mon()
    np.random.seed(spec.get("seed", 0) & 0xFFFFFFFF)
    random.seed(spec.get("seed", 0))
    status = "ok"
    note = None
    inside = False

    def on_alarm(sig, frm):
        raise CaseTimeout()

    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(limit)
    t0 = time.time()
    try:
        module.run(spec, mon)
    except CaseTimeout as e:
        status, note = "timeout", "case exceeded %ss\n%s" % (limit, traceback.format_exc()[-1800:])
        inside = in_repo(e.__traceback__)
    except HarnessError as e:
        status, note = "error", repr(e)
    except Exception as e:
        tb = e.__traceback__
        txt = "".join(traceback.format_exception(type(e), e, tb))[-3000:]
        if in_repo(tb):
            mon.fail("the code raised %s: %s on valid use" % (type(e).__name__, str(e)[:200]), trace=txt[-1500:])
        elif isinstance(e, (TypeError, ValueError, AttributeError, LookupError, ArithmeticError)):
            # what the code handed back has not even the form that the monitors compare
            mon.fail("what the code returned or left behind cannot be judged: %s: %s" % (type(e).__name__, str(e)[:200]), trace=txt[-1500:])
        else:
            status, note = "error", txt
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    return mon, status, note, round(time.time() - t0, 3), inside


def worker(prop, tier, seed, shard, nshards, out, scratch):
    from . import env

    try:
        env.enter(scratch)
    except Exception as e:
        if not in_repo(e.__traceback__):
            raise
        with open(out, "w") as f:
            fail = {"msg": "the package cannot be imported: %s: %s" % (type(e).__name__, e), "key": None, "detail": {"trace": traceback.format_exc()[-1500:]}}
            f.write(json.dumps({"spec": {"kind": "import", "seed": 0}, "status": "ok", "note": None, "counts": {}, "sets": {}, "fails": [fail], "secs": 0, "i": shard}) + "\n")
            f.write(json.dumps({"done": True}) + "\n")
        return
    module = importlib.import_module("mon.checks." + prop.lower())
    limit = int(os.environ.get("VMON_LIMIT", 0)) or (60 if tier == "quick" else 240)
    known = {k["key"] for k in load_known() if k["property"] == prop and k.get("status") == "known"}
    n_fail = 0
    with open(out, "w") as f:
        for idx, spec in enumerate(module.cases(tier, seed)):
            if idx % nshards != shard:
                continue
            spec = dict(spec)
            spec.setdefault("seed", case_seed(prop, seed, tier, idx))
            r = run_one(module, spec, limit)
            r["i"] = idx
            f.write(json.dumps(r, default=str) + "\n")
            f.flush()
            if any(x["key"] not in known for x in r["fails"]):
                n_fail += 1
                if n_fail >= MAX_FAILS or r["status"] == "hang":
                    break
        f.write(json.dumps({"done": True}) + "\n")


def load_known():
    from . import env

    p = os.path.join(env.VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


if __name__ == "__main__":
    prop, tier, seed, shard, nshards, out, scratch = sys.argv[1:8]
    worker(prop, tier, int(seed), int(shard), int(nshards), out, scratch)
