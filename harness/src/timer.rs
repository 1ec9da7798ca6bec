//! C19 (C25): the timer under a paused clock
use crate::mock::rt;
use crate::rng::*;
use bytes::Bytes;
use futures::channel::mpsc::unbounded;
use futures::StreamExt;
use overlord::verif::smr_types::*;
use overlord::verif::{Event, SMRHandler, Timer};
use overlord::DurationConfig;
use std::sync::{Arc, Mutex};
use std::time::Duration;

pub fn run(rep: &std::sync::Arc<Rep>) {
    rep.rule("seeded schedules of up to 14 events (new round, prevote, precommit, brake, commit, with new intervals and ratios, rounds 0..12 and very large ones) at seeded virtual times; the triggers and their times are compared with a plain calculation");
    let mut r = Rng::new(rep.seed ^ 0xC19);
    let mut n = 0u64;
    while rep.go(10.0, 100.0) {
        n += 1;
        one(rep, &mut r, n);
    }
}
/// mostly the current height and round
fn off(r: &mut Rng, h: u64, ro: u64) -> (u64, u64) {
    if r.chance(88) {
        return (h, ro);
    }
    (if r.chance(50) { h } else { h.saturating_sub(1) + r.below(3) }, *r.pick(&[ro.saturating_sub(1), ro, ro.saturating_add(1), 0, 7]))
}
fn one(rep: &Rep, r: &mut Rng, n: u64) {
    let mut interval = *r.pick(&[1u64, 10, 100, 3000, 7, 1234]);
    let cfg = if r.chance(50) { Some(DurationConfig::new(r.below(40), r.below(40), r.below(40), r.below(40))) } else { None };
    let mut ratios = cfg.clone().map_or((24, 10, 5, 3), |c| (c.propose_ratio, c.prevote_ratio, c.precommit_ratio, c.brake_ratio));
    let (mut h, mut ro) = (0u64, 0u64);
    let mut t = 0u64;
    let mut sched: Vec<(u64, SMREvent)> = vec![];
    let len = 1 + r.below(14);
    // (expiry time, filter) of every expected timer
    let mut exp: Vec<(u64, u64, TriggerType, u64, u64)> = vec![]; // set, due, type, height, round
    let mut moves: Vec<(u64, u64, u64)> = vec![(0, 0, 0)]; // time, height, round
    let stop_at = if r.chance(30) { Some(r.below(len)) } else { None };
    let mut stopped_t = u64::MAX;
    let i0 = interval;
    for i in 0..len {
        t += *r.pick(&[0u64, 1, 5, 50, 500, 3000, 20000]) * 10 + 10;
        if Some(i) == stop_at {
            sched.push((t, SMREvent::Stop));
            stopped_t = t;
            break;
        }
        match r.below(6) {
            0 | 1 => {
                if r.chance(30) {
                    h += 1 + r.below(2);
                    ro = 0;
                } else {
                    ro = if r.chance(8) { *r.pick(&[1 << 32, (1 << 32) + 1, u64::MAX - 1, 40, 64]) } else { ro.saturating_add(r.below(3)).min(u64::MAX - 1) };
                }
                let ni = if r.chance(30) { Some(*r.pick(&[1u64, 20, 200, 900])) } else { None };
                let nc = if r.chance(30) { Some(DurationConfig::new(r.below(40), r.below(40), r.below(40), r.below(40))) } else { None };
                if let Some(x) = ni {
                    interval = x;
                }
                if let Some(c) = &nc {
                    ratios = (c.propose_ratio, c.prevote_ratio, c.precommit_ratio, c.brake_ratio);
                }
                moves.push((t, h, ro));
                exp.push((t, interval * ratios.0 / 10 * (1 << ro.min(5)), TriggerType::Proposal, h, ro));
                sched.push((t, SMREvent::NewRoundInfo { height: h, round: ro, lock_round: None, lock_proposal: None, from_where: FromWhere::PrecommitQC(0), new_interval: ni, new_config: nc }));
            }
            2 => {
                let (eh, er) = off(r, h, ro);
                exp.push((t, interval * ratios.1 / 10 * (1 << ro.min(5)), TriggerType::PrevoteQC, eh, er));
                sched.push((t, SMREvent::PrevoteVote { height: eh, round: er, block_hash: Bytes::from("x"), lock_round: Some(1) }));
            }
            3 => {
                let (eh, er) = off(r, h, ro);
                exp.push((t, interval * ratios.2 / 10 * (1 << ro.min(5)), TriggerType::PrecommitQC, eh, er));
                sched.push((t, SMREvent::PrecommitVote { height: eh, round: er, block_hash: Bytes::from("x"), lock_round: None }));
            }
            4 => {
                let (eh, er) = off(r, h, ro);
                exp.push((t, interval * ratios.3 / 10, TriggerType::BrakeTimeout, eh, er));
                sched.push((t, SMREvent::Brake { height: eh, round: er, lock_round: None }));
            }
            _ => sched.push((t, SMREvent::Commit(Bytes::from("x")))),
        }
    }
    let inp = format!("interval {} config {:?} schedule {:?}", i0, cfg, sched);
    rep.at(inp.clone());
    rep.case(&(n, inp.clone()));
    rep.sample(|| inp.clone());
    let p0 = PANICS.load(std::sync::atomic::Ordering::SeqCst);
    let got = rt().block_on(async {
        let (etx, erx) = unbounded();
        let (ttx, mut trx) = unbounded();
        let start = tokio::time::Instant::now();
        Timer::new(Event::new(erx), SMRHandler::new(ttx), i0, cfg).run();
        let log = Arc::new(Mutex::new(vec![]));
        let l2 = Arc::clone(&log);
        tokio::spawn(async move {
            while let Some(x) = trx.next().await {
                l2.lock().unwrap().push((start.elapsed().as_millis() as u64, x));
            }
        });
        for (t, e) in &sched {
            tokio::time::sleep_until(start + Duration::from_millis(*t)).await;
            let _ = etx.unbounded_send(e.clone());
        }
        tokio::time::sleep(Duration::from_secs(60_000_000)).await;
        let v: Vec<(u64, SMRTrigger)> = log.lock().unwrap().clone();
        drop(etx);
        v
    });
    if PANICS.load(std::sync::atomic::Ordering::SeqCst) != p0 {
        rep.fail(&["C19", "C25"], "panic", format!("the timer panics: {:?}", LAST_PANIC.lock().unwrap()), inp);
        return;
    }
    let mut left = got.clone();
    for (set, dur, ty, eh, er) in &exp {
        let due = set + dur;
        let at = |x: u64| moves.iter().filter(|m| m.0 <= x).last().unwrap().clone();
        let keep = |m: (u64, u64, u64)| !(*eh < m.1 || (*ty == TriggerType::Proposal && *er < m.2));
        let (a, b) = (keep(at(due.saturating_sub(3))), keep(at(due + 5)));
        let (a, b) = if due + 5 >= stopped_t { (a && due.saturating_sub(3) < stopped_t, false) } else { (a, b) };
        let k = left.iter().position(|(w, g)| g.trigger_type == *ty && g.height == *eh && g.round == *er && *w >= due && *w <= due + 4);
        match k {
            Some(i) if a || b => {
                left.remove(i);
            }
            None if !(a && b) => (),
            None => {
                rep.fail(&["C19"], "missing", format!("the {:?} timeout of height {} round {} set at {} ms is due at {} ms but does not fire; fired: {:?}", ty, eh, er, set, due, got.iter().map(|g| format!("{} {:?} {} {}", g.0, g.1.trigger_type, g.1.height, g.1.round)).collect::<Vec<_>>()), inp);
                return;
            }
            Some(_) => {
                rep.fail(&["C19", if stopped_t != u64::MAX { "C25" } else { "C19" }], "stale", format!("the {:?} timeout of height {} round {} fires at {} ms although it is over", ty, eh, er, due), inp);
                return;
            }
        }
    }
    for (w, g) in left {
        rep.fail(&["C19", if w >= stopped_t { "C25" } else { "C19" }], "extra", format!("an unexpected trigger at {} ms: {:?}", w, g), inp.clone());
    }
    for (_, g) in got {
        if g.source != TriggerSource::Timer || !g.hash.is_empty() || g.lock_round.is_some() || g.wal_info.is_some() {
            rep.fail(&["C19", "C09"], "content", format!("a timer trigger carries {:?}", g), inp.clone());
        }
    }
}
