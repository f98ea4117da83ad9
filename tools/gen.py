#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from the property definitions in tools/props/*.py (one list PROPS each)."""
import glob
import importlib.util
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = []
for f in sorted(glob.glob(os.path.join(V, "tools", "props", "*.py"))):
    s = importlib.util.spec_from_file_location("p", f)
    mod = importlib.util.module_from_spec(s)
    s.loader.exec_module(mod)
    props += mod.PROPS
props.sort(key=lambda p: p["id"])
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in props:
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
checks, na = [], []
for p in props:
    assert len(p["title"]) <= 80, p["id"]
    if p.get("na"):
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": f"python3 sa/check.py {p['id']} --tier quick",
        "thorough_cmd": f"python3 sa/check.py {p['id']} --tier thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": p["technique"],
        "level": "other",
        "level_note": p["level_note"],
    })
m = {
    "version": 1,
    "setup_cmd": "python3 sa/facts.py --check-toolchain",
    "checks": checks,
    "not_applicable": na,
    "notes": "Static analysis only: a rustc driver (driver/) dumps the type-checked MIR, layouts and statics of /repo's crates; the analyses in sa/ decide "
             "each property from those facts. Nothing of /repo is executed. Facts are rebuilt from /repo's working tree whenever its content differs.",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")

# DESIGN.md: fixed parts plus the table of planted bugs
T = lambda n: open(os.path.join(V, "tools", n)).read()
rows = []
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    d = json.load(open(f))
    rows.append(f"| {os.path.basename(os.path.dirname(f))} | {d['property']} | {d.get('caught_by', '?')} | {d['needs'].replace('|', '/')} |")
with open(os.path.join(V, "DESIGN.md"), "w") as f:
    f.write(T("design_head.md") + "\n" + T("design_props.md") + "\n" + T("design_tail.md")
            + "\n## Planted bugs and the checks that catch them\n\n| bug (`seeded/`) | property | caught by | needs |\n|---|---|---|---|\n" + "\n".join(rows) + "\n")
