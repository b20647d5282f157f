"""Re-executes one recorded case and prints what the monitors say."""
import importlib
import json
import sys

from . import core, env


def main():
    prop, specfile, scratch = sys.argv[1:4]
    try:
        env.enter(scratch)
    except Exception as e:
        if not core.in_repo(e.__traceback__):
            raise
        print("the package cannot be imported: %r" % e)
        print("VIOLATION property=%s replay=%s" % (prop, specfile))
        return 1
    module = importlib.import_module("mon.checks." + prop.lower())
    r = core.run_one(module, json.load(open(specfile)), 600)
    print(json.dumps(r, indent=1, default=str))
    known = {k["key"] for k in core.load_known() if k["property"] == prop and k.get("status") == "known"}
    if any(f["key"] not in known for f in r["fails"]):
        print("VIOLATION property=%s replay=%s" % (prop, specfile))
        return 1
    return 0 if r["status"] == "ok" else 2


if __name__ == "__main__":
    sys.exit(main())
