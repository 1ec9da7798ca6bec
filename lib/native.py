"""build and run the native harness (real code of /repo, cfg overlord_verif)"""
import hashlib, json, os, shutil, subprocess, time
from concurrent.futures import ThreadPoolExecutor
from . import driver as D

VERIF = D.VERIF


def src_hash(repo):
    h = hashlib.sha256()
    for d, _, fs in sorted(os.walk(os.path.join(repo, "src"))):
        for f in sorted(fs):
            p = os.path.join(d, f)
            h.update(p.encode() + b"\0" + open(p, "rb").read())
    h.update(open(os.path.join(repo, "Cargo.toml"), "rb").read())
    return h.hexdigest()


def build(features=()):
    """returns path of the binary; raises on failure"""
    repo = D.REPO
    tgt = os.path.join(D.work(), "harness-target" + ("-" + "-".join(features) if features else ""))
    src = os.path.join(D.work(), "harness")
    os.makedirs(src + "/src", exist_ok=True)
    for f in ["Cargo.toml", "Cargo.lock"] + ["src/" + x for x in os.listdir(os.path.join(VERIF, "harness", "src"))]:
        a, b = os.path.join(VERIF, "harness", f), os.path.join(src, f)
        t = open(a).read()
        if f == "Cargo.toml":
            t = t.replace('path = "/repo"', 'path = "%s"' % repo)
        if not os.path.exists(b) or open(b).read() != t:
            open(b, "w").write(t)
    stamp, now = os.path.join(tgt, "overlord-src"), src_hash(repo)
    if not os.path.exists(stamp) or open(stamp).read() != now:
        fp = os.path.join(tgt, "release", ".fingerprint")
        if os.path.isdir(fp):
            for x in os.listdir(fp):
                if x.startswith("overlord-"):
                    shutil.rmtree(os.path.join(fp, x))
    env = dict(os.environ, CARGO_TARGET_DIR=tgt, RUSTFLAGS="--cfg overlord_verif -Awarnings", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true")
    env.pop("RUSTC_WRAPPER", None)
    cmd = ["cargo", "build", "--offline", "--release", "--quiet"]
    if features:
        cmd += ["--features", ",".join(features)]
    r = subprocess.run(cmd, cwd=src, env=env, capture_output=True, text=True)
    if r.returncode != 0:
        raise RuntimeError("harness build failed: " + r.stderr[-1500:])
    open(stamp, "w").write(now)
    return os.path.join(tgt, "release", "ovh")


def run_suites(prop, suites, tier, seed):
    out = {"runs": [], "violations": [], "others": [], "errors": []}
    bins = {}
    for s in suites:
        feat = tuple(s.split("@")[1:])
        if feat not in bins:
            try:
                bins[feat] = build(feat)
            except Exception as e:
                bins[feat] = None
                out["errors"].append(str(e)[:1500])
    with ThreadPoolExecutor(4) as ex:
        for js in list(ex.map(lambda s: one(prop, s, bins[tuple(s.split("@")[1:])], tier, seed), suites)):
            if js is None:
                continue
            if isinstance(js, str):
                out["errors"].append(js)
                continue
            if js.get("error"):
                out["errors"].append("suite %s: %s" % (js["suite"], js["error"][:600]))
            out["violations"] += js.pop("violations", [])
            out["others"] += js.pop("others", [])
            out["runs"].append(js)
    return out


def one(prop, s, binary, tier, seed):
    if binary is None:
        return None
    res = os.path.join(D.work(), "native-%s-%s-%d.json" % (prop, s.replace("@", "_"), os.getpid()))
    if os.path.exists(res):
        os.unlink(res)
    t = time.time()
    lim = 240 if tier == "quick" else 700
    try:
        r = subprocess.run([binary, s.split("@")[0], prop, tier, str(seed), res], capture_output=True, text=True, timeout=lim, cwd=D.work())
        rc, err = r.returncode, r.stderr[-2000:]
    except subprocess.TimeoutExpired:
        rc, err = -1, "time limit"
    js = {}
    if os.path.exists(res):
        try:
            js = json.load(open(res))
        except Exception:
            js = {}
        os.unlink(res)
    if not js:
        return "suite %s gave no result (rc %s): %s" % (s, rc, err)
    js["wall_s"] = round(time.time() - t, 1)
    js["suite"] = s
    return js
