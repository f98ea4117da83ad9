#!/usr/bin/env python3
"""Dev tool (no check uses it): seed.py SPEC.py — creates seeded/<id>/ for every SEEDS entry of SPEC.py and confirms it in scratch copies.

Entry: dict(id, property, needs, breaks, edits=[(file, old, new)], crate, file, extra="", test=str). Confirms: patch applies, builds, stable tests pass,
demo.sh exits 0 on the unchanged tree and nonzero with the patch."""
import json, os, subprocess, sys, shutil
B = "/tmp/seed"
V = "/verif/seeded"
DEMO = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "demo_template.sh")).read()
os.makedirs(B, exist_ok=True)
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]


def sh(c, **k):
    return subprocess.run(c, shell=True, text=True, capture_output=True, **k)


for s in ns["SEEDS"]:
    if only and s["id"] not in only:
        continue
    d = f"{V}/{s['id']}"
    sh(f"rsync -a --delete --exclude target --exclude .git /repo/ {B}/repo/")
    ok = True
    for f, o, n in s["edits"]:
        p = f"{B}/repo/{f}"
        t = open(p).read()
        if t.count(o) != 1:
            print(s["id"], f"edit does not match once ({t.count(o)}): {o[:60]!r}")
            ok = False
            break
        open(p, "w").write(t.replace(o, n))
    if not ok:
        continue
    diff = sh(f"git diff --no-index --no-prefix /repo/crates {B}/repo/crates").stdout
    diff = diff.replace(f"{B}/repo/crates".lstrip("/"), "crates").replace("repo/crates", "crates")
    import re
    diff = re.sub(r"(?m)^(diff --git) (\S+) (\S+)$", r"\1 a/\2 b/\3", diff)
    diff = re.sub(r"(?m)^--- (crates)", r"--- a/\1", diff)
    diff = re.sub(r"(?m)^\+\+\+ (crates)", r"+++ b/\1", diff)
    os.makedirs(d, exist_ok=True)
    open(f"{d}/patch.diff", "w").write(diff)
    open(f"{d}/demo.sh", "w").write(DEMO)
    os.chmod(f"{d}/demo.sh", 0o755)
    open(f"{d}/target.env", "w").write(f'CRATE="{s["crate"]}"\nFILE="{s["file"]}"\nEXTRA="{s.get("extra", "")}"\n')
    open(f"{d}/test.rs", "w").write(s["test"])
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
    r = sh(f"git -C /repo apply --check {d}/patch.diff")
    if r.returncode:
        print(s["id"], "patch does not apply", r.stderr[:300]); shutil.rmtree(d); continue
    # build and stable tests
    sh(f"""cd {B}; sed -e 's|^REPO, OUT = .*|REPO, OUT = "{B}/repo", "{B}/shadow"|' /opt/vp/shadow.py > {B}/shadow.py; [ -d {B}/target ] || cp -a /opt/vp/target/nollvm {B}/target""")
    r = sh(f""". /opt/vp/env.sh; python3 {B}/shadow.py && cd {B}/shadow/nollvm && CARGO_TARGET_DIR={B}/target timeout -k 10 800 cargo test --workspace --features revmc/alloy-evm --no-fail-fast --offline -- --test-threads 8""", executable="/bin/bash")
    fails = [l for l in r.stdout.splitlines() if l.startswith("test ") and l.endswith("FAILED")]
    if r.returncode:
        stable = json.load(open("/opt/vp/BASELINE.json"))
        names = json.dumps(stable)
        bad = [l for l in fails if l.split()[1] in names]
        if bad or not fails:
            print(s["id"], "TESTS FAIL:", (bad or r.stderr[-600:])); continue
    r1 = sh(f"cd /repo && bash {d}/demo.sh")
    if r1.returncode:
        print(s["id"], "demo fails on unchanged tree:", [l for l in r1.stdout.splitlines() if l.startswith(("error", "  --> ")) or "panicked" in l][-6:]); continue
    r2 = sh(f"cd {B}/repo && bash {d}/demo.sh")
    if not r2.returncode:
        print(s["id"], "demo passes with the patch"); continue
    why = [l for l in r2.stdout.splitlines() if "panicked" in l or "error" in l][:2]
    print(s["id"], "OK:", why)
