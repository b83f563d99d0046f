#!/usr/bin/env python3
"""run.py PROPERTY [--tier quick|thorough] [--seed N] [--unit NAME] [--replay FILE]

Exit 0: held on everything observed.  1: VIOLATION line printed.  2: inconclusive / harness error."""
import argparse
import importlib
import json
import os
import pkgutil
import sys
import time

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
EVID = os.environ.get("RT_OUT") or os.path.join(HERE, "evidence")
sys.path.insert(0, HERE)
from rt import core  # noqa: E402
sys.path.insert(0, core.REPO)


def load():
    import rt.props as pkg
    for m in sorted(x.name for x in pkgutil.iter_modules(pkg.__path__)):
        try:
            importlib.import_module("rt.props." + m)
        except Exception:
            import traceback
            print("could not load rt.props.%s\n%s" % (m, traceback.format_exc()))


RULE = ("inputs are generated by the workload units listed under 'units' (boundary values, "
        "exhaustive small ranges, adversarial families, seeded random); one is non-trivial when its "
        "(operation, arguments) differs from every other of its unit and its result went through "
        "the unit's oracle")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--unit")
    ap.add_argument("--shard", type=int)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("RT_JOBS", "8")))
    ap.add_argument("--replay")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.replay:
        rp = json.load(open(a.replay))
        a.prop, a.seed, a.tier = rp["property"], rp["seed"], rp["tier"]
        a.unit, a.shard = rp["unit"], rp["shard"]
    try:
        load()
        import rosemary
        src = os.path.realpath(os.path.dirname(rosemary.__file__))
        if not src.startswith(os.path.realpath(core.REPO) + os.sep):
            raise core.Harness("rosemary imported from %s, not from %s" % (src, core.REPO))
        if a.prop not in core.UNITS:
            raise core.Harness("no units for " + a.prop)
    except Exception:
        import traceback
        traceback.print_exc()
        print("INCONCLUSIVE property=%s: could not load the code under test" % a.prop)
        return 2
    results, wall = core.run_property(a.prop, a.seed, a.tier, jobs=a.jobs, only=a.unit, shard=a.shard)
    viol = [r for r in results if r["status"] == "violated"]
    inc = [r for r in results if r["status"] == "inconclusive"]
    known = {}
    for r in results:
        known.update(r["known"])
    counters = {}
    for r in results:
        for k, v in r["counters"].items():
            counters[k] = counters.get(k, 0) + v
    lines = {}
    for r in results:
        for f, v in r.get("lines", {}).items():
            lines.setdefault(f, set()).update(v)
    if os.environ.get("RT_LINES"):
        with open(os.path.join(os.environ["RT_LINES"], a.prop + ".json"), "w") as f:
            json.dump({k: sorted(v) for k, v in lines.items()}, f)
    samples = [s for r in results for s in r["samples"]][:40] or ["(none)"]
    ev = {
        "property": a.prop, "tier": a.tier if a.tier in ("quick", "thorough") else "quick",
        "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(r["evals"] for r in results),
            "distinct_nontrivial": sum(r["distinct"] for r in results),
            "oracle_assertions": sum(r["checks"] for r in results),
            "rule": RULE, "samples": samples, "exhaustive": False,
            "operations": dict(sorted(counters.items())),
            "code_lines_reached": {k: len(v) for k, v in sorted(lines.items())},
            "units": [{k: r[k] for k in ("unit", "shard", "status", "evals", "checks", "wall")}
                      for r in sorted(results, key=lambda r: (r["unit"], r["shard"]))],
            "inconclusive": len(inc), "known_findings": known,
        },
        "assumptions": ["inputs outside the documented domain of an operation are not judged"],
        "wall_s": round(wall, 2), "violations": len(viol),
    }
    if a.unit is None and a.shard is None:
        os.makedirs(EVID, exist_ok=True)
        tmp = os.path.join(EVID, ".%s.%d.tmp" % (a.prop, os.getpid()))
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(EVID, a.prop + ".json"))
    if a.v:
        for r in sorted(results, key=lambda r: -r["wall"]):
            print("  %-38s s%d %-12s evals=%-8d checks=%-8d %.1fs" % (
                r["unit"], r["shard"], r["status"], r["evals"], r["checks"], r["wall"]))
    for k, d in sorted(known.items()):
        print("KNOWN-FINDING: property=%s %s: %s" % (a.prop, k, d))
    for r in inc:
        print("inconclusive unit=%s shard=%d: %s" % (r["unit"], r["shard"], r["message"]))
        if r.get("tb"):
            print(r["tb"])
    if viol:
        d = os.path.join(EVID, "replays")
        os.makedirs(d, exist_ok=True)
        for r in viol:
            path = os.path.join(d, "%s-%s-%d-%d.json" % (a.prop, r["unit"], r["shard"], a.seed))
            with open(path, "w") as f:
                json.dump({"property": a.prop, "unit": r["unit"], "shard": r["shard"], "seed": a.seed,
                           "tier": a.tier, "operation": r["label"], "message": r["message"],
                           "witness": r["witness"]}, f, indent=1)
            print("violated unit=%s operation=%s: %s" % (r["unit"], r["label"], r["message"]))
            print("  witness: %s" % core.short(r["witness"], 1500))
            print("VIOLATION property=%s replay=%s" % (a.prop, path))
        return 1
    if inc:
        print("INCONCLUSIVE property=%s" % a.prop)
        return 2
    print("HELD property=%s evaluations=%d distinct=%d assertions=%d wall=%.1fs" % (
        a.prop, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"],
        ev["coverage"]["oracle_assertions"], wall))
    return 0


if __name__ == "__main__":
    sys.exit(main())
