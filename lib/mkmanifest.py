"""writes MANIFEST.json from lib/props.py (run by hand after changing what is claimed)"""
import json, os
from . import props as P
HERE = P.HERE
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i not in P.PROPS:
        na.append({"property": i, "reason": P.NOT_APPLICABLE.get(i, "not claimed")})
        continue
    c = P.PROPS[i]
    checks.append({
        "property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % i,
        "technique": c.get("technique", "contracts on the functions extracted from /repo, discharged by Verus (SMT)"),
        "level": c.get("level", "proof"),
        "level_note": c.get("note", "") or "Proved function by function for the functions listed in the evidence; library types by assumed contracts (trusted_base); native runs of the real code are bounded and only supply failing inputs.",
    })
m = {"version": 1, "setup_cmd": "python3 -c 'from lib import driver as D; D.build_vx()'",
     "hooks": {"guard": "cfg overlord_verif", "enable": "RUSTFLAGS=--cfg overlord_verif", "source_commits": P.HOOKS},
     "checks": checks, "not_applicable": na,
     "notes": "Defects found and repaired in /repo are listed in known-findings.txt; method and bounds in DESIGN.md."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
