"""development aid: python3 -m lib.dev UNIT — run one unit and print everything"""
import sys
from . import driver as D, props as P
r = D.run_unit(sys.argv[1], baseline=P.baseline(sys.argv[1]) if len(sys.argv) < 3 else {})
print("verified", r.verified, "errors", r.errors, "smt", r.smt_ms, "wall", round(r.wall, 1), "broken", (r.broken or "")[:3000])
for k, v in r.structural.items(): print("STRUCT", k, v[:600])
for u in r.undecided: print("UNDECIDED", u["fn"], u["msg"][:300])
for f in r.failures[:25]: print("FAIL", f["fn"], f["props"], f["msg"], "|", f.get("clause"), "\n", f["rendered"][:1500])
if r.vacuous: print("VACUOUS", r.vacuous)
print("missing", r.missing_types)
