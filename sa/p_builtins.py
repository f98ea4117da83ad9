"""Properties of the runtime library (one dataflow pass, filtered by the aspect of each finding)."""
import bspec


def _make(aspects, floor_events):
    def f(prog, rep):
        fs, st = bspec.run(prog)
        n = {}
        for name, aspect, msg, span in fs:
            if aspect in aspects or aspect in ("anchor",):
                k = (name, aspect, msg)
                rep.violation(f"{name}:{aspect}:{msg}", f"runtime entry point `{name}`: {msg}", span)
        rep.ob("paths accepted by the entry point's specification", st["paths"])
        rep.floor("entry points", st["builtins"], 50)
        rep.floor("paths", st["paths"], 400)
        rep.ob("points of the operand, gas, fork and host-answer grid at which the effect summaries agree with the accepted form", st["points"])
        for k, v in st["settled"].items():
            rep.sample(f"{k}: written differently from the accepted form, same effects at {v} points")
        rep.count("effect events", st["events"])
        rep.count("functions analysed", len(st["bodies"]))
        rep.count("call sites", len(st["sites"]))
        for k, v in list(st["per"].items())[:10]:
            rep.sample(f"{k}: {v} paths to an exit, each accepted")
        rep.assumptions.append("host and gas-schedule methods behave as the interpreter's own (they are external crates)")
    return f


static = _make({"static"}, 0)
gas = _make({"gas"}, 0)
memory = _make({"memory"}, 0)
host = _make({"host", "result", "operands", "extra"}, 0)
exits = _make({"exit"}, 0)
frame = _make({"frame"}, 0)
