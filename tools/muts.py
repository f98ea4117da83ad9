"""muts.py SPEC.py PROP...: dev tool (no check uses it). Applies each mutant of SPEC.M = [(name, file, old, new[, props])] to a
scratch copy of /repo and runs the registered checks on it; prints which noticed."""
import os, runpy, subprocess, sys, shutil, threading, queue
spec = runpy.run_path(sys.argv[1])
props = sys.argv[2:]
Q = queue.Queue()
only = os.environ.get("ONLY")
for x in spec["M"]:
    if not only or any(o in x[0] for o in only.split(",")):
        Q.put(x)
lock = threading.Lock()


def lane(i):
    B = f"/tmp/mutlane{os.environ.get("LANEBASE", "")}{i}"
    os.makedirs(B + "/ev", exist_ok=True)
    while True:
        try:
            x = Q.get_nowait()
        except queue.Empty:
            return
        name, f, old, new = x[:4]
        ps = x[4] if len(x) > 4 else props
        subprocess.run(["rsync", "-a", "--delete", "--exclude", "target", "--exclude", ".git", "/repo/", B + "/repo/"], check=True)
        p = f"{B}/repo/{f}"
        s = open(p).read()
        if s.count(old) != 1:
            with lock:
                print(f"{name}: {s.count(old)} matches", flush=True)
            continue
        open(p, "w").write(s.replace(old, new))
        env = dict(os.environ, VERIF_REPO=B + "/repo", VERIF_WORK=B + "/work", VERIF_EVIDENCE=B + "/ev")
        out = []
        for pr in ps:
            r = subprocess.run([sys.executable, "/verif/sa/check.py", pr, "--tier", "quick"], env=env, capture_output=True, text=True)
            t = [l for l in r.stdout.splitlines() if not l.startswith("VIOLATION")]
            out.append(f"{pr} rc={r.returncode} " + " / ".join(l[:230] for l in t[:int(os.environ.get('MUT_LINES', '2'))]) if r.returncode else f"{pr} quiet")
        with lock:
            print(f"{name}: " + " || ".join(out), flush=True)


T = [threading.Thread(target=lane, args=(i,)) for i in range(int(os.environ.get("LANES", "3")))]
[t.start() for t in T]
[t.join() for t in T]
