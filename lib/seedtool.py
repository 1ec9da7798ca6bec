"""development aid: make and confirm planted bugs (no check uses this)
mk(id, prop, needs, breaks, edits, main) writes seeded/<id>/; confirm(id) builds and tests the patched tree and runs the demo on both trees"""
import json, os, subprocess, shutil, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(HERE, "seeded")
SCR = "/tmp/seed-scratch"
SRC = os.environ.get("SEEDSRC", "/repo")

DEMO = '''#!/bin/bash
# builds main.rs against the overlord crate in the current directory (with the export hook on) and runs it
set -u
here="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/src"
sed "s#@REPO@#$repo#" "$here/Cargo.toml.in" > "$tmp/Cargo.toml"
cp "$here/Cargo.lock.in" "$tmp/Cargo.lock"
cp "$here"/*.rs "$tmp/src/"
cd "$tmp"
export CARGO_TARGET_DIR="$tmp/target" RUSTFLAGS="--cfg overlord_verif -Awarnings" CARGO_NET_OFFLINE=true
cargo +stable build --offline --quiet || exit 99
timeout 120 "$tmp/target/debug/demo"
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def scratch():
    if not os.path.isdir(SCR):
        sh("cp -a /repo %s" % SCR)
    sh("git -C %s checkout -q -- . && git -C %s fetch -q %s HEAD && git -C %s reset -q --hard FETCH_HEAD" % (SCR, SCR, SRC, SCR))


def mk(id, prop, needs, breaks, edits, main, features=()):
    d = os.path.join(SEED, id)
    os.makedirs(d, exist_ok=True)
    scratch()
    for f, old, new in edits:
        p = os.path.join(SCR, f)
        s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = sh("git -C %s diff" % SCR).stdout
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    c = open(os.path.join(HERE, "harness", "Cargo.toml")).read().replace('"/repo"', '"@REPO@"').replace('name = "ovh"', 'name = "demo"')
    if features:
        c = c.replace('path = "@REPO@"', 'path = "@REPO@", features = %s' % json.dumps(list(features)))
    open(os.path.join(d, "Cargo.toml.in"), "w").write(c)
    l = open(os.path.join(HERE, "harness", "Cargo.lock")).read().replace('name = "ovh"', 'name = "demo"')
    open(os.path.join(d, "Cargo.lock.in"), "w").write(l)
    open(os.path.join(d, "main.rs"), "w").write(main)
    if "mod mock" in main:
        shutil.copy(os.path.join(HERE, "harness", "src", "mock.rs"), os.path.join(d, "mock.rs"))
    scratch()


SUITE_MAIN = """//! runs one suite of scenarios with a fixed seed against the crate; exits 1 when one of them breaks the property
#![recursion_limit = "512"]
#![allow(warnings)]
%s
use std::sync::atomic::Ordering;

fn main() {
    std::panic::set_hook(Box::new(|i| {
        *rng::LAST_PANIC.lock().unwrap() = Some(format!("{}", i));
        rng::PANICS.fetch_add(1, Ordering::SeqCst);
    }));
    let out = std::env::temp_dir().join(format!("demo-{}.json", std::process::id()));
    let rep = rng::Rep::new("%s", "%s", false, %d, out.to_str().unwrap());
    rng::watchdog(&rep);
    %s(&rep);
    rep.write();
    let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&out).unwrap()).unwrap();
    let _ = std::fs::remove_file(&out);
    let bad = v["violations"].as_array().unwrap();
    println!("{} cases", v["cases"]);
    if let Some(x) = bad.first() {
        eprintln!("{}", x["input"].as_str().unwrap());
        eprintln!("{}", x["what"].as_str().unwrap());
        std::process::exit(1);
    }
}
"""


def mk_suite(id, prop, needs, breaks, edits, suite, seed=1, secs=12, features=()):
    """a planted bug whose demonstration is a suite of scenarios (copied from the harness, so that it stands alone)"""
    deps = {"agree": ["mock", "agree"], "state": ["mock", "state", "verify"], "node": ["mock", "node"], "net": ["mock", "net", "verify"], "smr": ["mock", "smr"], "coll": ["coll", "mock"], "codec": ["codec", "mock"], "json": ["codec", "mock"], "timer": ["mock", "timer"], "auth": ["auth", "mock"], "verify": ["verify", "mock"]}[suite]
    mods = sorted(set(deps + ["rng"]))
    fn = "codec::run_json" if suite == "json" else suite + "::run"
    mk(id, prop, needs, breaks, edits, SUITE_MAIN % ("\n".join("mod %s;" % m for m in mods), suite, prop, seed, fn), features)
    d = os.path.join(SEED, id)
    for m in mods:
        s = open(os.path.join(HERE, "harness", "src", m + ".rs")).read()
        if m == "rng":
            a = "!self.full() && self.secs() < if self.thorough { thorough } else { quick }"
            assert a in s
            s = s.replace(a, "!self.full() && self.secs() < if self.thorough { thorough } else { quick.min(%d.0) }" % secs)
        open(os.path.join(d, m + ".rs"), "w").write(s)
    p = os.path.join(d, "Cargo.toml.in")
    c = open(p).read().replace("[profile.release]", "[profile.dev]")
    open(p, "w").write(c)


def confirm(id):
    d = os.path.join(SEED, id)
    scratch()
    a = sh("bash %s/demo.sh" % d, cwd=SCR)
    r = sh("git apply %s/patch.diff" % d, cwd=SCR)
    b = sh("bash %s/demo.sh" % d, cwd=SCR)
    t = sh(". /opt/vp/env.sh; export CARGO_TARGET_DIR=%s/target; touch src/lib.rs; cargo nextest run --workspace --offline --no-fail-fast --tool-config-file vp:/opt/vp/nextest.toml --profile vp" % SCR, cwd=SCR)
    ok = a.returncode == 0 and r.returncode == 0 and b.returncode not in (0, 99)
    ok = ok and t.returncode == 0
    print(id, "OK" if ok else "BAD", "clean", a.returncode, "apply", r.returncode, "patched", b.returncode, "tests", t.returncode, [l for l in t.stderr.splitlines() if "Summary" in l or "FAIL" in l])
    if not ok:
        print(a.stdout[-600:], a.stderr[-1500:], r.stderr, b.stdout[-600:], b.stderr[-1500:])
    else:
        print("   ", (b.stderr.strip().splitlines() or [""])[-3:])
    scratch()


if __name__ == "__main__":
    for i in sys.argv[1:] or sorted(os.listdir(SEED)):
        confirm(i)
