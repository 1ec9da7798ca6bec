#!/usr/bin/env python3
"""check.py PROPERTY: decide one property on the current tree of /repo (see DESIGN.md).

1. The contract units of the property: functions are extracted from /repo, joined with their contracts and given to Verus.
2. The native harness of the property runs the real code on enumerated and seeded inputs (replay, and bounded stand-in where
   a function left the verifier's reach).
Outcome: exit 0, or exit 1 with a VIOLATION line.
"""
import json, os, re, subprocess, sys, time, hashlib, traceback
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from lib import driver as D, native as N, props as P


def load_known():
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"^finding: property=(\S+) key=(\S+) (.*)$", l.strip())
            if m:
                out.append(m.groups())
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    cfg = P.PROPS[prop]
    units, suites = cfg["units"], cfg["suites"]
    results, broken = {}, {}

    def unit(n):
        try:
            return D.run_unit(n, baseline=P.baseline(n))
        except Exception as e:
            return "%s: %s" % (type(e).__name__, str(e)[:600] + traceback.format_exc()[-600:])

    D.build_vx_safe()
    with ThreadPoolExecutor(4) as ex:
        nat = ex.submit(N.run_suites, prop, suites, tier, seed) if suites else None
        futs = {n: ex.submit(unit, n) for n in units}
        for n, f in futs.items():
            r = f.result()
            if isinstance(r, str):
                broken[n] = r
            else:
                results[n] = r
                if r.broken:
                    broken[n] = r.broken
        native = nat.result() if nat else {"runs": [], "violations": [], "others": [], "errors": []}

    fails, structural, undecided = [], {}, []
    for n, r in results.items():
        for f in r.failures:
            if prop in f["props"]:
                fails.append(dict(f, unit=n))
        for k, v in r.structural.items():
            structural["%s/%s" % (n, k)] = v
        for v in r.undecided:
            undecided.append("%s/%s: %s" % (n, v["fn"], v["msg"]))
    # an invariant or assertion that fails in a function whose loops were rewritten says nothing about the property
    hard = [f for f in fails if not f.get("soft")]
    soft = [f for f in fails if f.get("soft")]

    known = load_known()
    lines, code = [], 0
    rdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    live = []
    for v in native["violations"]:
        k = [x for x in known if x[0] == prop and x[1] == v.get("key")]
        if k:
            lines.append("KNOWN-FINDING: property=%s %s" % (prop, k[0][2]))
        else:
            live.append(v)
    if hard and not live:
        # an obligation of the property fails and the real code deviates, though the run counts for other properties: that run is the replay
        live = [dict(v, note="an obligation of %s fails on this tree; this run of the real code deviates from the rules" % prop) for v in native.get("others", [])]
    if live:
        p = os.path.join(rdir, "%s.json" % prop)
        json.dump({"property": prop, "failing_input": live[0], "others": live[1:5],
                   "rerun": "VERIF_SEED=%d VERIF_TIER=%s python3 check.py %s" % (seed, tier, prop),
                   "failed_obligations": [brief(f) for f in fails[:20]]}, open(p, "w"), indent=1)
        lines.append("VIOLATION property=%s replay=%s" % (prop, p))
        code = 1
    elif hard:
        p = os.path.join(rdir, "%s.json" % prop)
        json.dump({"property": prop, "failed_obligations": [dict(brief(f), verifier_output=f["rendered"]) for f in hard[:20]],
                   "failing_input": None, "native_cases_tried": sum(r.get("cases", 0) for r in native["runs"])}, open(p, "w"), indent=1)
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, p))
        code = 1

    # evidence
    obl = sum(r.verified + r.errors for r in results.values())
    dis = sum(r.verified for r in results.values())
    fns = []
    clauses = []
    trusted = set()
    for n, r in results.items():
        for f in r.fns:
            mine = prop in f["props"]
            st = "assumed (external contract)" if f["external"] else ("outside the verifier's reach on this tree" if f["id"] in r.stubs or f["id"] in r.structural else "verified")
            fns.append({"unit": n, "fn": f["id"], "at": "%s:%s" % (f["file"], f["line"]), "tagged": mine, "status": st})
        clauses += ["%s %s: %s" % (n, c["fn"], c["text"][:300]) for c in r.clauses if prop in c["props"]]
        trusted |= set(r.trusted)
    reach = [f for f in fns if f["status"] == "outside the verifier's reach on this tree"]
    cov = {
        "obligations": obl, "discharged": dis,
        "checker_cmd": "; ".join("%s %s/%s.rs --multiple-errors 40" % (D.VERUS, D.work(), n) for n in units),
        "trusted_base": sorted(trusted),
        "functions_under_contract": fns, "property_clauses": clauses,
        "backend": "Verus 0.2026.09.13 / Z3", "solver_ms": sum(r.smt_ms for r in results.values()),
        "verifier_wall_s": round(sum(r.wall for r in results.values()), 1),
        "vacuity_probes": sum(getattr(r, "probes", 0) for r in results.values()),
        "vacuous": sum([r.vacuous for r in results.values()], []),
        "helpers_inlined": {n: r.inlined for n, r in results.items() if r.inlined},
        "extraction_rewrites": sorted(set().union(*[r.rules for r in results.values()])) if results else [],
        "failed_obligations": [brief(f) for f in fails],
        "undecided": undecided + ["%s: %s" % kv for kv in structural.items()] + ["%s: %s" % kv for kv in broken.items()],
        "proved_on_this_tree": not (fails or undecided or reach or broken or structural),
        "bounded_native": {"label": "bounded, not counted as proved", "runs": native["runs"], "errors": native["errors"],
                           "evaluations": sum(r.get("cases", 0) for r in native["runs"])},
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "proof", "coverage": cov,
          "assumptions": P.ASSUMPTIONS + cfg.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": 1 if code else 0}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", "%s.json" % prop), "w"), indent=1)
    for l in lines:
        print(l)
    print("%s: %d obligations, %d discharged, %d contract failures (%d set aside: loops rewritten), %d undecided; native cases %d, errors %s; %.1fs" % (
        prop, obl, dis, len(hard), len(soft), len(cov["undecided"]), cov["bounded_native"]["evaluations"], [e[:300] for e in native["errors"]], time.time() - t0))
    for u in cov["undecided"][:8]:
        print("  undecided:", u[:300])
    for f in fails[:8]:
        print("  failed:", f["unit"], f["fn"], f["msg"], "|", (f["clause"] or "")[:200], "(set aside)" if f.get("soft") else "")
    for v in live[:5]:
        print("  input:", json.dumps(v)[:600])
    sys.exit(code)


def brief(f):
    return {k: f.get(k) for k in ("unit", "fn", "msg", "clause", "part", "lines")}


if __name__ == "__main__":
    main()
