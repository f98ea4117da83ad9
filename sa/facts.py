"""Builds the fact extractor and the facts for /repo's current working tree (cached by content hash in /verif/work)."""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.environ.get("VERIF_WORK") or os.path.join(VERIF, "work")

# fact level -> (cargo arguments, crates that must be dumped)
LEVELS = {
    "builtins": (["-p", "revmc-builtins", "--features", "ir"], ["revmc_backend", "revmc_builtins", "revmc_context"]),
    "codegen": (["-p", "revmc-codegen"], ["revmc_backend", "revmc_builtins", "revmc_context", "revmc_codegen"]),
    "runtime": (["-p", "revmc-runtime", "--features", "alloy-evm"],
                ["revmc_backend", "revmc_builtins", "revmc_context", "revmc_codegen", "revmc_llvm", "revmc_runtime"]),
}


class BuildFailed(Exception):
    pass


def _hash():
    h = hashlib.sha256()
    roots = [os.path.join(REPO, "crates"), os.path.join(VERIF, "driver", "src")]
    files = [os.path.join(REPO, "Cargo.toml"), os.path.join(REPO, "Cargo.lock"), os.path.join(VERIF, "driver", "Cargo.toml"),
             os.path.abspath(__file__)]
    for r in roots:
        for d, ds, fs in os.walk(r):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git", "node_modules"))
            files += [os.path.join(d, f) for f in sorted(fs) if f.endswith((".rs", ".toml", ".md", ".cpp", ".h", ".c", ".py", ".json"))]
    for f in files:
        if os.path.exists(f):
            h.update(f.encode())
            h.update(open(f, "rb").read())
    return h.hexdigest()


def _run(cmd, cwd, env, log):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    with open(log, "a") as f:
        f.write(f"$ {' '.join(cmd)}\n{p.stdout}\n")
    if p.returncode != 0:
        raise BuildFailed(f"{' '.join(cmd)} failed:\n" + "\n".join(p.stdout.splitlines()[-40:]))
    return p.stdout


def ensure(level):
    """Facts directory for `level`, rebuilt when /repo's sources differ from those it was made from."""
    os.makedirs(WORK, exist_ok=True)
    with open(os.path.join(WORK, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _ensure(level)


def _ensure(level):
    args, crates = LEVELS[level]
    h = _hash()
    for lv in LEVELS:  # a richer level is as good
        if set(crates) <= set(LEVELS[lv][1]):
            d = os.path.join(WORK, "facts-" + lv)
            st = os.path.join(d, "STAMP")
            if os.path.exists(st) and open(st).read() == h and all(os.path.exists(os.path.join(d, c + ".json")) for c in crates):
                return d
    out = os.path.join(WORK, "facts-" + level)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    log = os.path.join(WORK, "build.log")
    open(log, "w").close()
    env = dict(os.environ)
    env.pop("RUSTC_WRAPPER", None)
    env.pop("RUSTFLAGS", None)
    env.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0")
    denv = dict(env, CARGO_TARGET_DIR=os.path.join(WORK, "driver-target"))
    _run(["cargo", "+nightly", "build", "--offline", "-q"], os.path.join(VERIF, "driver"), denv, log)
    _run([sys.executable, os.path.join(VERIF, "tools", "shadow.py")], VERIF,
         dict(env, VERIF_SHADOW=os.path.join(WORK, "shadow"), VERIF_REPO=REPO), log)
    sysroot = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], capture_output=True, text=True, check=True).stdout.strip()
    tgt = os.path.join(WORK, "target")
    # cargo's freshness cache would silently skip the wrapper: drop every workspace unit first
    for base in ("build", ".fingerprint"):
        b = os.path.join(tgt, "debug", base)
        if os.path.isdir(b):
            for n in os.listdir(b):
                if n.startswith("revmc"):
                    shutil.rmtree(os.path.join(b, n), ignore_errors=True)
    benv = dict(env, CARGO_TARGET_DIR=tgt, MIRFACTS_OUT=out, MIRFACTS_CRATES=",".join(crates), CARGO_PROFILE_DEV_DEBUG="0",
                RUSTC_WORKSPACE_WRAPPER=os.path.join(WORK, "driver-target", "debug", "mirfacts"),
                LD_LIBRARY_PATH=os.path.join(sysroot, "lib"))
    _run(["cargo", "+nightly", "check", "--offline"] + args, os.path.join(WORK, "shadow", "check"), benv, log)
    for c in crates:
        if not os.path.exists(os.path.join(out, c + ".json")):
            raise BuildFailed(f"no facts were extracted for {c}")
    with open(os.path.join(out, "STAMP"), "w") as f:
        f.write(h)
    return out


if __name__ == "__main__":
    if sys.argv[1:] == ["--check-toolchain"]:
        sys.exit(subprocess.run(["rustc", "+nightly", "--version"]).returncode)
    for lv in sys.argv[1:] or ["runtime"]:
        print(ensure(lv))
