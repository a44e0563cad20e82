#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough] [--root DIR]: decide one property on DIR's current sources."""
import argparse
import json
import os
import sys
import time
import traceback

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(12000)

from sa import harness  # noqa: E402
from sa.absint import AnalysisError, AnalysisLimit  # noqa: E402
from sa import checks  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--root", default="/repo")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    fn = checks.load().get(a.prop)
    if fn is None:
        print("no check for", a.prop)
        return 2
    evd = os.path.join(HERE, "evidence")
    os.makedirs(evd, exist_ok=True)
    try:
        ctx = harness.Ctx(a.prop, a.root, a.tier)
        try:
            fn(ctx)
        except (AnalysisError, AnalysisLimit) as e:
            if a.v:
                traceback.print_exc()
            ctx.errors.append(str(e))
        known, new = ctx.split_known()
        if not new:
            if ctx.errors:
                raise AnalysisError("; ".join(ctx.errors[:5]))
            for rule, n in ctx.floors.items():
                if ctx.obligations.get(rule, 0) < n:
                    raise AnalysisError("rule %s produced %d obligations, expected at least %d" % (rule, ctx.obligations.get(rule, 0), n))
    except (AnalysisError, AnalysisLimit) as e:
        print("ANALYSIS-ERROR property=%s %s" % (a.prop, e))
        if a.v:
            traceback.print_exc()
        return 2
    wall = time.time() - t0
    ev = ctx.evidence(wall)
    with open(os.path.join(evd, a.prop + ".json"), "w", encoding="utf-8") as fd:
        json.dump(ev, fd, indent=1, sort_keys=True)
    for v in known:
        print("KNOWN-FINDING: property=%s %s: %s" % (a.prop, v["construct"], v["message"]))
    if new:
        rp = os.path.join(evd, a.prop + ".report.txt")
        with open(rp, "w", encoding="utf-8") as fd:
            for v in new:
                fd.write("property %s rule %s\n  at %s\n  %s\n" % (a.prop, v["rule"], v["where"], v["message"]))
                if v["path"]:
                    fd.write("  path: %s\n" % v["path"])
                fd.write("  occurrences: %d\n\n" % v["count"])
        for v in new[:20]:
            print("  [%s] %s: %s" % (v["rule"], v["where"], v["message"]))
        print("VIOLATION property=%s replay=%s" % (a.prop, rp))
        return 1
    print("OK property=%s obligations=%d paths=%d functions=%d wall=%.2fs" % (a.prop, sum(ctx.obligations.values()), ctx.paths, len(ctx.funcs), wall))
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:  # an error of the check itself, never a verdict
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
