#!/usr/bin/env python3
"""ver.py MOD[,MOD] KEY… | all : verify functions (development aid).  VSRC: source root."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import vc, verify
mods = sys.argv[1].split(",")
keys = sys.argv[2:]
ms = vc.closure(mods)
if keys in ([], ["all"]):
    keys = [f.key for m in ms for f in m.fns if m.name in mods and "inline" not in f.opts and "trusted" not in f.opts]
src = os.environ.get("VSRC", "/repo/src")
r = verify.verify(vc.ROOT + "/.build/rs2v/release/rs2v", src, mods, keys, "/tmp/x/ver", log=print)
print(r.status, "verified", r.verified, "errors", r.errors, "runs", r.runs, "%.1fs" % r.time)
for f in r.failed: print("FAILED", *f)
for f in r.unsupported: print("UNSUPPORTED", *f)
if os.environ.get("V"):
    print("live:", *r.live, sep="\n   "); print("dropped:", *r.dropped, sep="\n   ")
if r.status == "proved":
    print("vacuous:", verify.probes(r, "/tmp/x/ver"))
