#!/usr/bin/env python3
"""Check runner: `check.py <property> [--tier quick|thorough]`.

Decides one property from /repo's current source, writes /verif/evidence/<property>.json and, for each violation not
listed in known_findings.json, a line `VIOLATION property=<id> replay=<path>`.
"""
import argparse
import importlib
import json
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import facts  # noqa: E402

VERIF = facts.VERIF
EVID = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")

# property -> (module, function, facts level)
from registry import REGISTRY  # noqa: E402


class Report:
    tier = "quick"

    def __init__(self, prop):
        self.prop = prop
        self.viol = {}      # key -> (message, where)
        self.obl = {}       # rule -> number of obligations examined
        self.counts = {}
        self.samples = []
        self.notes = []
        self.assumptions = []

    def ob(self, rule, n=1):
        self.obl[rule] = self.obl.get(rule, 0) + n

    def violation(self, key, msg, where=""):
        """key: stable identification of the construct (no line numbers)."""
        self.viol.setdefault(key, (msg, where))

    def check(self, cond, rule, key, msg, where=""):
        self.ob(rule)
        if not cond:
            self.violation(f"{rule}:{key}", msg, where)
        return cond

    def floor(self, name, value, minimum):
        self.counts[name] = value
        if value < minimum:
            self.violation(f"floor:{name}", f"only {value} {name} found where at least {minimum} exist in the code this rule was written for: "
                           "the anchors of the analysis are gone", "")

    def count(self, name, value):
        self.counts[name] = value

    def merge(self, r):
        for k, v in r["viol"].items():
            self.viol.setdefault(k, v)
        for k, v in r["obl"].items():
            self.ob(k, v)
        for k, v in r["counts"].items():
            self.counts[k] = self.counts.get(k, 0) + v
        for s in r["samples"]:
            self.sample(s)

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)


def known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    t0 = time.time()
    Report.tier = a.tier
    rep = Report(a.prop)
    mod, fn, level, rule = REGISTRY[a.prop]
    import mirlib
    prog = None
    try:
        prog = mirlib.load(facts.ensure(level))
        getattr(importlib.import_module(mod), fn)(prog, rep)
    except facts.BuildFailed as e:
        rep.violation("build", f"the tree does not build, so nothing can be shown: {str(e)[-1500:]}")
    except mirlib.Missing as e:
        rep.violation(f"anchor:{e}", f"an anchor of the analysis is gone: {e}")
    except mirlib.Limit as e:
        rep.violation(f"limit:{e}", f"the analysis ran out of its bound: {e}")
    except Exception as e:  # fail closed
        tb = traceback.format_exc()
        rep.violation(f"internal:{type(e).__name__}", f"the analysis could not interpret the code: {tb[-1500:]}")
    kf = {(k["property"], k["key"]): k for k in known()["findings"]}
    new = []
    for key, (msg, where) in sorted(rep.viol.items()):
        if (a.prop, key) in kf:
            print(f"KNOWN-FINDING: property={a.prop} {kf[(a.prop, key)]['what']}")
        else:
            new.append((key, msg, where))
    os.makedirs(EVID, exist_ok=True)
    report = os.path.join(EVID, f"{a.prop}.report.txt")
    with open(report, "w") as f:
        f.write(f"property {a.prop}\nrule: {rule}\nobligations: {rep.obl}\ncounts: {rep.counts}\n\n")
        for key, msg, where in new:
            f.write(f"VIOLATION {key}\n  at {where}\n  {msg}\n\n")
        f.write("rerun: " + f"python3 {os.path.join(VERIF, 'sa', 'check.py')} {a.prop}\n")
    ev = {
        "property": a.prop, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": {
            "explanation": rule,
            "evaluations": sum(rep.obl.values()),
            "distinct_nontrivial": len([k for k in rep.obl]) + len(rep.samples),
            "rule": "an evaluation is one obligation (path, call site, table cell, field or function) decided by the rule; distinct counts the "
                    "different rules applied plus the written-out samples",
            "obligations_by_rule": rep.obl,
            "analysed": rep.counts,
            "program": {"crates": sorted({b.crate for b in prog.bodies.values()}), "bodies": len(prog.bodies)} if prog else {},
            "samples": rep.samples or ["(none)"],
        },
        "assumptions": rep.assumptions or ["rustc's MIR of the checked configuration is what ships; external crates behave as their names and types say"],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    with open(os.path.join(EVID, f"{a.prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    for key, msg, where in new[:20]:
        print(f"  {key}\n    at {where}\n    {msg[:600]}")
    if new:
        print(f"VIOLATION property={a.prop} replay={report}")
        sys.exit(1)
    print(f"ok property={a.prop}: {sum(rep.obl.values())} obligations, {time.time()-t0:.1f}s")
    sys.exit(0)


if __name__ == "__main__":
    main()
