#!/usr/bin/env python3
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
from vlib.table import PROPS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(R + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": [],
     "hooks": {"guard": "none", "enable": "no hooks: the contracts are applied to the text of /repo/src, the replay crate uses the public API", "source_commits": []},
     "notes": "check.py ID extracts the functions of /repo/src mechanically (tools/rs2v), attaches the contracts of contracts/*.vc and lets Verus discharge every obligation; see DESIGN.md"}
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        m["checks"].append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
                            "technique": p.get("technique", "contract-based deductive verification (Verus) of the extracted code; replay of the real code against an oracle for failing inputs"),
                            "level": p.get("level", "proof"), "level_note": p["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "contracts not written yet")})
with open(R + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
