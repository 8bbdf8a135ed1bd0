#!/usr/bin/env python3-vt
"""Re-runs a recorded failing input against the real code: replay.py replay/<file>.json"""
import sys, os, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts"))
import importlib
import check, build


def main():
    d = json.load(open(sys.argv[1]))
    prop, ent, inp = d["property"], d["entry"], d["input"]
    print("property %s, entry %s\nviolated: %s" % (prop, ent, d["violated"]))
    if inp is None:
        print("no failing input was found; failed obligations:")
        for f in d["failed_obligations"]: print("  %s [%s]\n    goal: %s\n    %s" % (f["name"], f["status"], f.get("goal", ""), f.get("reason", "")))
        return 1
    os.chdir(build.VERIF)
    spec = importlib.import_module(prop)
    e = next((e for e in spec.entries("quick") if e.name == ent), None)
    if e is None:
        print("found by a run-time stage: input %s" % (inp,)); return 1
    bdir = os.path.join(build.VERIF, "build", prop); os.makedirs(bdir, exist_ok=True)
    so = build.build_so(os.path.join(build.VERIF, "contracts", prop + ".cpp"), os.path.join(bdir, "replay"), defines=getattr(spec, "DEFINES", ()))
    for i, res, why in check.conc_run(so, e, [inp]):
        bad = check.conc_check(e, i, res, why)
        print("input:   ", i)
        print("observed:", res or why)
        print("violated:", bad or "nothing (the property holds on this input now)")
        return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
