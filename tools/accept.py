#!/usr/bin/env python3
"""Writes sa/accepted.json.gz: the effect summaries of the runtime-library entry points in the form the acceptor (bspec) accepts.
Refuses any entry point the acceptor has a finding about. Run by hand; no check runs it."""
import gzip
import json
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "sa"))
import bspec
import bval
import facts
import mirlib as m
from btrace import builtins

p = m.load(facts.ensure("builtins"))
fs, st = bspec.run(p, settle=False)
bad = {x[0] for x in fs}
bs = builtins(p)
out = {}
for key, sp in bspec.SPECS.items():
    if key == "panic":
        continue
    if key in bad:
        sys.exit(f"{key} is not accepted")
    b = bs[key.split("#")[0]]
    for name, cs, sp2 in bval.variants(p, b, key, sp):
        paths, e = bval.extract(p, b, cs)
        d = bval.enc(paths)
        words, args, ctx = bval.names_of(p, b, sp2)
        d["sig"] = repr((sorted(words), sorted((k, m.tyhead(v)) for k, v in args.items())))
        out[name] = d
with open(bval.ACCEPTED, "wb") as f, gzip.GzipFile(fileobj=f, mode="wb", mtime=0) as g:
    g.write(json.dumps(out, sort_keys=True).encode())
print(len(out), "entry points,", os.path.getsize(bval.ACCEPTED), "bytes")
