"""Writes the two derived workspaces that build.sh and test.sh run cargo in.

    python3 /opt/vp/shadow.py

/opt/vp/shadow/nollvm  the crates that can be built without LLVM, feature "llvm" off, the dev-dependency
                       revmc-statetest (which drags LLVM in) dropped. Linked and tested.
/opt/vp/shadow/check   every workspace member, feature "llvm" on, but with nothing of LLVM linked.
                       Only good for "cargo check".

Both hold generated Cargo.toml files and, for everything else, symlinks into /repo, so cargo compiles the files of
/repo itself. Run again before each cargo call: what did not change is not touched."""

import glob
import os
import shutil
import sys
import tomllib

REPO, OUT = os.environ.get("VERIF_REPO", "/repo"), os.environ["VERIF_SHADOW"]

#: Depend on revmc with feature "llvm" in a way that cannot be switched off.
NEED_LLVM = {
    "crates/revmc-llvm", "crates/revmc-statetest", "crates/revmc-cli",
    "examples/compiler", "examples/runner", "fuzz",
}
DROP = ("revmc-llvm", "revmc-statetest")


def dump(v):
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, (int, float)):
        return repr(v)
    if isinstance(v, str):
        return '"' + v.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n") + '"'
    if isinstance(v, list):
        return "[" + ", ".join(map(dump, v)) + "]"
    return "{ " + ", ".join(f"{dump(k)} = {dump(x)}" for k, x in v.items()) + " }"


def write(path, text):
    if os.path.islink(path):
        os.remove(path)
    if os.path.exists(path) and open(path).read() == text:
        return
    os.makedirs(os.path.dirname(path), exist_ok=True)
    open(path, "w").write(text)


def write_toml(path, data):
    write(path, "".join(f"{dump(k)} = {dump(v)}\n" for k, v in data.items()))


def mirror(src, dst):
    """Symlinks to everything in src but Cargo.toml."""
    os.makedirs(dst, exist_ok=True)
    want = {n for n in os.listdir(src) if n not in ("Cargo.toml", "target")}
    for n in set(os.listdir(dst)) - want - {"Cargo.toml"}:
        p = f"{dst}/{n}"
        os.remove(p) if os.path.islink(p) or os.path.isfile(p) else shutil.rmtree(p)
    for n in want:
        if not os.path.islink(f"{dst}/{n}"):
            os.symlink(f"{src}/{n}", f"{dst}/{n}")


def nollvm(member, m):
    for kind in ("dependencies", "dev-dependencies", "build-dependencies"):
        for name in DROP:
            m.get(kind, {}).pop(name, None)
    feats = m.get("features", {})
    for name, items in feats.items():
        feats[name] = [
            f for f in items
            if not f.removeprefix("dep:").startswith(DROP) and not (name == "default" and f.startswith("llvm"))
        ]
    if member == "crates/revmc":
        # Its unit tests are the state tests, which need revmc-statetest and the fixtures.
        m.setdefault("lib", {})["test"] = False


def check(member, m):
    if member == "crates/revmc-llvm":
        # build.rs compiles cpp/lib.cpp against the headers of LLVM 22.
        m["package"]["build"] = False
        # With both of these llvm-sys asks for no llvm-config.
        m["dependencies"]["inkwell"]["features"].append("llvm22-1-no-llvm-linking")
        m["dependencies"]["llvm-sys"] = {"version": "221", "features": ["disable-alltargets-init", "no-llvm-linking"]}
        m["features"] = {k: [] for k in m.get("features", {})}
    if member == "examples/runner":
        # build.rs runs the LLVM backend.
        m["package"]["build"] = False


def main():
    root = tomllib.load(open(f"{REPO}/Cargo.toml", "rb"))
    members = sorted(
        os.path.relpath(os.path.dirname(p), REPO)
        for pat in root["workspace"]["members"]
        for p in glob.glob(f"{REPO}/{pat}/Cargo.toml")
    )
    for kind, edit, skip in (("nollvm", nollvm, NEED_LLVM), ("check", check, set())):
        out = f"{OUT}/{kind}"
        mine = [m for m in members if m not in skip]
        top = tomllib.load(open(f"{REPO}/Cargo.toml", "rb"))
        top["workspace"]["members"] = mine
        top["workspace"].pop("default-members", None)
        write_toml(f"{out}/Cargo.toml", top)
        for member in mine:
            m = tomllib.load(open(f"{REPO}/{member}/Cargo.toml", "rb"))
            edit(member, m)
            mirror(f"{REPO}/{member}", f"{out}/{member}")
            write_toml(f"{out}/{member}/Cargo.toml", m)
        have = {os.path.relpath(os.path.dirname(p), out) for pat in root["workspace"]["members"]
                for p in glob.glob(f"{out}/{pat}/Cargo.toml")}
        for gone in have - set(mine):
            shutil.rmtree(f"{out}/{gone}")
        for n in ("data", "tests"):
            if not os.path.islink(f"{out}/{n}"):
                os.symlink(f"{REPO}/{n}", f"{out}/{n}")
        # cargo drops from this copy what the derived workspace does not use; the versions stay.
        shutil.copyfile(f"{REPO}/Cargo.lock", f"{out}/Cargo.lock")


if __name__ == "__main__":
    sys.exit(main())
