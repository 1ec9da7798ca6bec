"""Run Verus on the assembled units and classify what it says."""
import json, os, re, subprocess, sys, time, hashlib
from concurrent.futures import ThreadPoolExecutor
from . import assemble as A

VERIF = A.VERIF
REPO = os.environ.get("OVERLORD_REPO", "/repo")
VERUS = os.environ.get("VERUS", "verus")

REAL = [
    "postcondition not satisfied", "precondition not satisfied", "assertion failed", "invariant not satisfied",
    "possible arithmetic underflow/overflow", "decreases not satisfied", "possible division by zero",
    "constructed value may fail", "loop invariant", "recommendation not met", "failed precondition", "possible bit shift",
    "unreachable", "cannot prove",
]
UNDEC = ["Resource limit", "rlimit", "timeout", "timed out"]


def work():
    d = os.environ.get("VERIF_WORK") or "/tmp/verif-work-%d" % os.getuid()
    os.makedirs(d, exist_ok=True)
    return d


def build_vx():
    """vx is built from /verif/vx (offline)"""
    d = work()
    tgt = os.path.join(d, "vx-target")
    src = b"".join(open(os.path.join(VERIF, "vx", p), "rb").read() for p in ["Cargo.toml", "src/main.rs", "src/rewrite.rs", "src/elim.rs", "src/dereturn.rs", "src/print.rs"])
    h = hashlib.sha256(src).hexdigest()
    b = os.path.join(tgt, "debug", "vx")
    st = os.path.join(tgt, "stamp")
    if os.path.exists(b) and os.path.exists(st) and open(st).read() == h:
        return b
    r = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=os.path.join(VERIF, "vx"),
                       env=dict(os.environ, CARGO_TARGET_DIR=tgt, RUSTFLAGS=""), capture_output=True, text=True)
    if r.returncode != 0:
        raise RuntimeError("vx build failed:\n" + r.stderr[-3000:])
    open(st, "w").write(h)
    return b


def build_vx_safe():
    try:
        return build_vx()
    except Exception:
        return None


def run_verus(path, rlimit=None, threads=4, extra=()):
    cmd = [VERUS, path, "--output-json", "--time", "--multiple-errors", "40", "--num-threads", str(threads), "--error-format=json"]
    if rlimit:
        cmd += ["--rlimit", str(rlimit)]
    cmd += list(extra)
    t = time.time()
    r = subprocess.run(cmd, capture_output=True, text=True, cwd=work(), timeout=800)
    wall = time.time() - t
    js = {}
    try:
        i = r.stdout.index("{")
        js = json.loads(r.stdout[i:])
    except Exception:
        pass
    diags = []
    for l in r.stderr.split("\n"):
        if l.startswith("{"):
            try:
                d = json.loads(l)
            except Exception:
                continue
            if d.get("level") == "error" and not d.get("message", "").startswith("aborting"):
                diags.append(d)
    return js, diags, wall, r


def kind_of(msg):
    m = msg.lower()
    if any(u.lower() in m for u in UNDEC):
        return "undecided"
    if any(u.lower() in m for u in REAL):
        return "failed"
    return "structural"


def lines_of(d):
    out = []
    for s in d.get("spans", []):
        out.append((s.get("line_start"), s.get("is_primary"), s.get("label") or ""))
    for c in d.get("children", []):
        for s in c.get("spans", []):
            out.append((s.get("line_start"), False, s.get("label") or c.get("message", "")))
    return out


class UnitResult:
    def __init__(self, unit):
        self.unit = unit
        self.failures = []      # dict(fn, props, msg, clause, aux)
        self.structural = {}    # fn -> reason
        self.undecided = []     # dict(fn, msg)
        self.verified = 0
        self.errors = 0
        self.smt_ms = 0
        self.wall = 0.0
        self.fns = []
        self.clauses = []
        self.trusted = []
        self.rules = set()
        self.inlined = {}
        self.broken = None
        self.vacuous = []
        self.changed_loops = {}
        self.missing_types = []


def shape(f):
    """what the loops of a function look like after extraction"""
    return [[l["kind"], A.norm(l.get("src") or "")] for l in f["loops"]]


def run_unit(name, repo=REPO, keep=True, probe=True, baseline=None):
    u = A.parse_unit(name)
    res = UnitResult(name)
    vx = build_vx()
    d = work()
    t0 = time.time()
    x = A.run_vx(u, repo, vx, d)
    if x["errors"]:
        for e in x["errors"]:
            res.structural["<source>"] = "; ".join(x["errors"])
    fx = {f["id"]: f for f in x["fns"]}
    stubs = set()
    path = os.path.join(d, "%s.rs" % name)
    for attempt in range(12):
        out, probs = A.assemble(u, x, stubs)
        for k, v in probs.items():
            res.structural.setdefault(k, v)
        open(path, "w").write(out.text())
        js, diags, wall, r = run_verus(path, u.rlimit)
        res.wall += wall
        struct = [dg for dg in diags if kind_of(dg["message"]) == "structural"]
        if not struct:
            break
        new = set()
        for dg in struct:
            for ln, prim, lab in lines_of(dg):
                i = out.map.get(ln)
                if i and i.get("fn") and i["fn"] not in stubs:
                    new.add(i["fn"])
                    res.structural.setdefault(i["fn"], dg["message"][:300] + " :: " + out.lines[ln - 1].strip()[:200])
                    break
        if not new:
            res.broken = "; ".join(dg["message"][:300] + " @" + str([l[0] for l in lines_of(dg)][:3]) for dg in struct[:4])
            break
        stubs |= new
    vr = js.get("verification-results", {})
    res.verified, res.errors = vr.get("verified", 0), vr.get("errors", 0)
    try:
        res.smt_ms = js["times-ms"]["smt"]["total"]
    except Exception:
        pass
    if not js and not res.broken:
        res.broken = "verus gave no result: " + r.stderr[-500:]
    for dg in diags:
        k = kind_of(dg["message"])
        if k == "structural":
            continue
        ls = lines_of(dg)
        clause, props, fn = None, None, None
        for ln, prim, lab in ls:
            i = out.map.get(ln) or {}
            if i.get("part") in ("requires", "ensures", "invariant") and clause is None:
                clause, props = i, i.get("props")
            if prim and i.get("fn"):
                fn = fn or i["fn"]
        for ln, prim, lab in ls:
            i = out.map.get(ln) or {}
            if i.get("fn") and fn is None:
                fn = i["fn"]
        # an obligation of a requires clause belongs to the caller
        for ln, prim, lab in ls:
            i = out.map.get(ln) or {}
            if i.get("lemma") and fn is None:
                fn, props = i.get("lemma_fn"), i["props"]
        spec = next((f for f in u.fns() if f.id == fn), None)
        if k == "undecided":
            res.undecided.append({"fn": fn, "msg": dg["message"]})
            continue
        if not props:
            props = (spec.props if spec else []) or []
        aux = clause is None or clause.get("part") == "invariant"
        stub_pre = "precondition" in dg["message"] and (clause is None or clause.get("fn") != fn)
        res.failures.append({"fn": fn, "props": list(props), "msg": dg["message"], "clause": clause.get("text") if clause else None,
                             "part": clause.get("part") if clause else None, "aux": aux and not stub_pre,
                             "lines": [out.lines[l[0] - 1].strip() for l in ls if l[0] and l[0] <= len(out.lines)][:4],
                             "rendered": dg.get("rendered", "")[:3000]})
    # a failing invariant or inner assertion in a function whose loops are not those the invariants were written for
    base = baseline or {}
    for f in res.failures:
        b = base.get(f["fn"])
        if b is not None and f["fn"] in fx and (b["loops"] != shape(fx[f["fn"]])):
            f["soft"] = True
    res.shapes = {k: {"loops": shape(v)} for k, v in fx.items()}
    for f in u.fns():
        if f.id in fx:
            res.fns.append({"id": f.id, "file": os.path.relpath(fx[f.id]["file"], repo), "line": fx[f.id]["line"],
                            "external": f.external, "props": sorted(set(sum([c.props for c in f.ensures + f.requires], []) + f.props)),
                            "loops": len(fx[f.id]["loops"])})
            for c in f.ensures:
                res.clauses.append({"fn": f.id, "props": c.props or f.props, "text": " ".join(c.text.split())})
            res.rules |= set(fx[f.id]["rules"])
            if fx[f.id]["inlined"]:
                res.inlined[f.id] = fx[f.id]["inlined"]
    t = out.text()
    res.trusted = scan_trusted(t)
    res.stubs = sorted(stubs)
    # vacuity probe: `assert(false)` at the entry of each contracted function must fail
    if probe and not res.broken:
        out2, _ = A.assemble(u, x, stubs, probe=True)
        p2 = os.path.join(d, "%s_probe.rs" % name)
        open(p2, "w").write(out2.text())
        js2, diags2, wall2, _r = run_verus(p2, u.rlimit)
        res.wall += wall2
        hit = set()
        for dg in diags2:
            for ln, prim, lab in lines_of(dg):
                i = out2.map.get(ln) or {}
                if i.get("part") == "probe":
                    hit.add(i["fn"])
        want = set(i["fn"] for i in out2.map.values() if i.get("part") == "probe")
        res.vacuous = sorted(want - hit)
        res.probes = len(want)
    return res


def scan_trusted(t):
    out = []
    ls = t.split("\n")
    for i, l in enumerate(ls):
        if "external_body" in l or "assume(" in l or "admit(" in l or "uninterp spec fn" in l or "assume_specification" in l:
            ctx = l.strip()
            if "external_body" in l and ctx.replace(" ", "") == "#[verifier::external_body]":
                j = i + 1
                while j < len(ls) and (not ls[j].strip() or ls[j].strip().startswith("#[")):
                    j += 1
                ctx = ls[j].strip() if j < len(ls) else ctx
            out.append(re.sub(r"\s+", " ", ctx)[:160])
    return sorted(set(out))


if __name__ == "__main__":
    for n in sys.argv[1:]:
        r = run_unit(n)
        print(n, "verified", r.verified, "errors", r.errors, "smt ms", r.smt_ms, "wall %.1f" % r.wall, "vacuous", r.vacuous)
        if r.broken:
            print("BROKEN", r.broken)
        for k, v in r.structural.items():
            print("STRUCT", k, v)
        for f in r.undecided:
            print("UNDEC", f)
        for f in r.failures:
            print("FAIL", f["fn"], f["props"], f["msg"], "aux" if f["aux"] else "", "|", (f["clause"] or "")[:300])
            for l in f["lines"]:
                print("      ", l[:200])
