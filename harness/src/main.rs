//! native harness: runs the real code of overlord on enumerated and seeded inputs
#![recursion_limit = "512"]
#![allow(clippy::all)]
mod agree;
mod auth;
mod codec;
mod coll;
mod mock;
mod net;
mod node;
mod rng;
mod smr;
mod state;
mod timer;
mod verify;

use rng::Rep;
use std::sync::atomic::Ordering;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (suite, prop, tier, seed, out) = (a[1].as_str(), a[2].clone(), a[3].clone(), a[4].parse::<u64>().unwrap_or(1), a[5].clone());
    std::panic::set_hook(Box::new(|i| {
        let m = format!("{}", i);
        *rng::LAST_PANIC.lock().unwrap() = Some(m);
        rng::PANICS.fetch_add(1, Ordering::SeqCst);
    }));
    let rep = Rep::new(suite, &prop, tier == "thorough", seed, &out);
    rng::watchdog(&rep);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match suite {
        "agree" => agree::run(&rep),
        "auth" => auth::run(&rep),
        "codec" => codec::run(&rep),
        "json" => codec::run_json(&rep),
        "coll" => coll::run(&rep),
        "net" => net::run(&rep),
        "node" => node::run(&rep),
        "timer" => timer::run(&rep),
        "smr" => smr::run(&rep),
        "verify" => verify::run(&rep),
        "state" => state::run(&rep),
        _ => panic!("no such suite"),
    }));
    if r.is_err() {
        let m = rng::LAST_PANIC.lock().unwrap().clone().unwrap_or_default();
        // a panic of the harness itself is an error of the harness, no verdict
        eprintln!("suite panicked: {}", m);
        rep.error(&m);
    }
    rep.write();
    std::process::exit(0);
}
