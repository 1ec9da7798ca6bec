"""python3 -m lib.baseline UNIT...: record the loop shapes the invariants of a unit were written for"""
import json, os, sys
from . import driver as D, assemble as A
for n in sys.argv[1:]:
    u = A.parse_unit(n)
    x = A.run_vx(u, D.REPO, D.build_vx(), D.work())
    d = {f["id"]: {"loops": D.shape(f)} for f in x["fns"] if f["loops"]}
    json.dump(d, open(os.path.join(D.VERIF, "units", n + ".base.json"), "w"), indent=1, sort_keys=True)
