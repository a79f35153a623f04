#!/usr/bin/env python3
"""show.py MOD [KEY…]: translated bodies of the functions of a contract module (development aid)."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import vc
mods = vc.closure([sys.argv[1]])
ex = vc.extract(vc.ROOT + "/.build/rs2v/release/rs2v", os.environ.get("VSRC", "/repo/src"), mods)
for k, e in ex["fns"].items():
    if (len(sys.argv) > 2 and k not in sys.argv[2:]) or (len(sys.argv) == 2 and not any(f.key == k for f in mods[-1].fns)):
        continue
    print("=====", k, e.get("self"), e.get("params"), e.get("ret"), "GEN", e.get("generics"), e.get("impl_generics"), e.get("self_ty"), "ERR", e["errors"])
    print(e.get("body"))
    for l in e.get("loops", []):
        print("   loop", l)
for n, t in ex["types"].items():
    if len(sys.argv) == 2 and any(x["name"] == n for x in mods[-1].types):
        print("type", n, t.get("error") or t["text"])
print(ex["parse_errors"])
