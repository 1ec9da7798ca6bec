//! C06..C09 (C12, C18, C25): the state machine against a plain restatement of its rules
use crate::mock::rt;
use crate::rng::*;
use bytes::Bytes;
use futures::{FutureExt, StreamExt};
use overlord::verif::smr_types::*;
use overlord::verif::{SMRBase, SMR};
use overlord::DurationConfig;

#[derive(Clone, Debug, PartialEq)]
struct M {
    h: u64,
    r: u64,
    step: Step,
    bh: Bytes,
    lock: Option<Lock>,
    stop: bool,
}
fn lk(l: &Option<Lock>) -> (Option<u64>, Option<Bytes>) {
    (l.as_ref().map(|l| l.round), l.as_ref().map(|l| l.hash.clone()))
}
impl M {
    fn new() -> M {
        M { h: 0, r: 0, step: Step::Commit, bh: Bytes::new(), lock: None, stop: false }
    }
    fn nr(&self, r: u64, fw: FromWhere) -> SMREvent {
        let (a, b) = lk(&self.lock);
        SMREvent::NewRoundInfo { height: self.h, round: r, lock_round: a, lock_proposal: b, from_where: fw, new_interval: None, new_config: None }
    }
    /// events for the state and for the timer
    fn step(&mut self, t: &SMRTrigger) -> (Vec<SMREvent>, Vec<SMREvent>) {
        let mut out = vec![];
        let mut tonly = vec![];
        let timer = t.source == TriggerSource::Timer;
        let lr = self.lock.as_ref().map(|l| l.round);
        match &t.trigger_type {
            TriggerType::NewHeight(s) => {
                if !timer && s.height > self.h {
                    *self = M { h: s.height, r: 0, step: Step::Propose, bh: Bytes::new(), lock: None, stop: false };
                    out.push(SMREvent::NewRoundInfo { height: s.height, round: 0, lock_round: None, lock_proposal: None, from_where: FromWhere::PrecommitQC(u64::MAX), new_interval: s.new_interval, new_config: s.new_config.clone() });
                }
            }
            TriggerType::Proposal => {
                if t.height == self.h && t.round == self.r && self.step == Step::Propose {
                    if timer {
                        let hash = self.lock.as_ref().map_or(Bytes::new(), |l| l.hash.clone());
                        out.push(SMREvent::PrevoteVote { height: self.h, round: self.r, block_hash: hash, lock_round: lr });
                        self.step = Step::Prevote;
                    } else if !t.hash.is_empty() {
                        match (&self.lock, t.lock_round) {
                            (None, _) => self.bh = t.hash.clone(),
                            (Some(l), Some(x)) if x > l.round => {
                                if t.hash != l.hash {
                                    self.lock = None;
                                    self.bh = t.hash.clone();
                                }
                            }
                            (Some(l), Some(x)) if x == l.round && t.hash != self.bh => return (out, tonly),
                            _ => (),
                        }
                        out.push(SMREvent::PrevoteVote { height: self.h, round: self.r, block_hash: self.bh.clone(), lock_round: self.lock.as_ref().map(|l| l.round) });
                        self.step = Step::Prevote;
                    }
                }
            }
            TriggerType::PrevoteQC => {
                if t.height != self.h || t.round < self.r || (t.round == self.r && self.step > Step::Prevote) {
                } else if timer {
                    if t.round == self.r {
                        if self.lock.is_none() {
                            self.bh = Bytes::new();
                        }
                        out.push(SMREvent::PrecommitVote { height: self.h, round: self.r, block_hash: Bytes::new(), lock_round: lr });
                        self.step = Step::Precommit;
                    }
                } else {
                    self.bh = t.hash.clone();
                    self.lock = if t.hash.is_empty() { None } else { Some(Lock { round: t.round, hash: t.hash.clone() }) };
                    if t.round > self.r {
                        out.push(self.nr(t.round + 1, FromWhere::PrevoteQC(t.round)));
                        self.r = t.round + 1;
                    }
                    out.push(SMREvent::PrecommitVote { height: self.h, round: self.r, block_hash: self.bh.clone(), lock_round: self.lock.as_ref().map(|l| l.round) });
                    self.step = Step::Precommit;
                }
            }
            TriggerType::PrecommitQC => {
                if t.height != self.h || self.step == Step::Commit {
                } else if timer {
                    if t.round == self.r {
                        out.push(SMREvent::Brake { height: self.h, round: self.r, lock_round: lr });
                        self.step = Step::Brake;
                    }
                } else if t.hash.is_empty() {
                    if t.round >= self.r {
                        out.push(self.nr(t.round + 1, FromWhere::PrecommitQC(t.round)));
                        self.r = t.round + 1;
                        self.step = Step::Propose;
                    }
                } else {
                    out.push(SMREvent::Commit(t.hash.clone()));
                    self.step = Step::Commit;
                }
            }
            TriggerType::BrakeTimeout => {
                if t.height == self.h && t.round == self.r {
                    out.push(SMREvent::Brake { height: self.h, round: self.r, lock_round: lr });
                }
            }
            TriggerType::ContinueRound => {
                if t.height == self.h && t.round > self.r {
                    out.push(self.nr(t.round, FromWhere::ChokeQC(t.round - 1)));
                    self.r = t.round;
                    self.step = Step::Propose;
                }
            }
            TriggerType::WalInfo => {
                let w = t.wal_info.clone().unwrap();
                self.h = w.height;
                self.r = w.round;
                self.step = w.step.clone();
                if let Some(p) = &w.polc {
                    self.bh = p.hash.clone();
                }
                self.lock = w.polc.clone();
                let (a, b) = lk(&self.lock);
                tonly.push(match w.step {
                    Step::Propose => SMREvent::NewRoundInfo { height: self.h, round: self.r, lock_round: a, lock_proposal: b, from_where: FromWhere::PrecommitQC(u64::MAX), new_interval: None, new_config: None },
                    Step::Prevote => SMREvent::PrevoteVote { height: self.h, round: self.r, block_hash: Bytes::new(), lock_round: a },
                    Step::Precommit => SMREvent::PrecommitVote { height: self.h, round: self.r, block_hash: Bytes::new(), lock_round: a },
                    _ => SMREvent::Brake { height: self.h, round: self.r, lock_round: a },
                });
            }
            TriggerType::Stop => {
                out.push(SMREvent::Stop);
                self.stop = true;
            }
        }
        (out, tonly)
    }
}

fn mk(ty: TriggerType, src: TriggerSource, hash: &Bytes, lock: Option<u64>, r: u64, h: u64, w: Option<SMRBase>) -> SMRTrigger {
    SMRTrigger { trigger_type: ty, source: src, hash: hash.clone(), lock_round: lock, round: r, height: h, wal_info: w }
}
fn gen(r: &mut Rng, m: &M, first: bool) -> SMRTrigger {
    let hs = [Bytes::new(), Bytes::from("A"), Bytes::from("B"), Bytes::from("C")];
    let (st, ti) = (TriggerSource::State, TriggerSource::Timer);
    let h = if r.chance(85) { m.h } else { *r.pick(&[m.h + 1, m.h.saturating_sub(1), 0, m.h + 7]) };
    let near = [m.r, m.r, m.r, m.r.saturating_sub(1), m.r + 1, m.r + 2, 0];
    let ro = if m.r < 1 << 40 { *r.pick(&near) } else { m.r };
    let e = Bytes::new();
    let nonempty = hs[1 + r.below(3) as usize].clone();
    let ty = if first { r.below(3) } else { 3 + r.below(30) };
    match ty {
        0 | 1 | 3 => mk(TriggerType::NewHeight(SMRStatus { height: *r.pick(&[m.h + 1, m.h + 1, m.h, m.h + 3, m.h.saturating_sub(1)]), new_interval: if r.chance(40) { Some(r.below(500)) } else { None }, new_config: if r.chance(40) { Some(DurationConfig::new(r.below(9), 2, 3, 4)) } else { None } }), if r.chance(95) { st } else { ti }, &e, None, 0, m.h + 1, None),
        2 | 4 => {
            let steps = [Step::Propose, Step::Prevote, Step::Precommit, Step::Brake];
            let rr = r.below(4);
            let p = if r.chance(50) { Some(Lock { round: r.below(rr + 1), hash: nonempty.clone() }) } else { None };
            let hh = m.h + r.below(3);
            mk(TriggerType::WalInfo, st, &e, None, rr, hh, Some(SMRBase { height: hh, round: rr, step: r.pick(&steps).clone(), polc: p }))
        }
        5..=11 => {
            let l = if r.chance(40) { Some(r.below(m.r.min(6) + 1)) } else { None };
            let x = if r.chance(96) { nonempty } else { e };
            mk(TriggerType::Proposal, st, &x, l, ro, h, None)
        }
        12..=18 => mk(TriggerType::PrevoteQC, st, r.pick(&hs), None, if r.chance(2) { u64::MAX - 2000 - r.below(2) } else { ro }, h, None),
        19..=22 => mk(TriggerType::PrecommitQC, st, if r.chance(50) { &hs[0] } else { &hs[1] }, None, ro, h, None),
        23 | 24 => mk(TriggerType::Proposal, ti, &e, None, ro, h, None),
        25 | 26 => mk(TriggerType::PrevoteQC, ti, &e, None, ro, h, None),
        27 | 28 => mk(TriggerType::PrecommitQC, ti, &e, None, ro, h, None),
        29 => mk(TriggerType::BrakeTimeout, ti, &e, None, ro, h, None),
        30 | 31 => mk(TriggerType::ContinueRound, st, &e, None, *r.pick(&[m.r + 1, m.r, m.r + 2, m.r.saturating_sub(1), m.r + 30]), h, None),
        _ => {
            if r.chance(15) {
                mk(TriggerType::Stop, st, &e, None, ro, h, None)
            } else {
                mk(TriggerType::PrevoteQC, st, &hs[1], None, ro, h, None)
            }
        }
    }
}
/// events after each trigger, and whether the run panicked
fn play(ts: &[SMRTrigger]) -> (Vec<(Vec<SMREvent>, Vec<SMREvent>)>, bool) {
    let p0 = PANICS.load(std::sync::atomic::Ordering::SeqCst);
    let v = rt().block_on(async {
        let (mut smr, mut es, mut et) = SMR::new();
        let mut hd = smr.take_smr();
        smr.run();
        let mut v = vec![];
        for t in ts {
            let _ = hd.trigger(t.clone());
            for _ in 0..3 {
                tokio::task::yield_now().await;
            }
            let (mut a, mut b) = (vec![], vec![]);
            while let Some(Some(e)) = es.next().now_or_never() {
                a.push(e);
            }
            while let Some(Some(e)) = et.next().now_or_never() {
                b.push(e);
            }
            v.push((a, b));
        }
        v
    });
    (v, PANICS.load(std::sync::atomic::Ordering::SeqCst) != p0)
}
fn expect(ts: &[SMRTrigger]) -> (Vec<(Vec<SMREvent>, Vec<SMREvent>)>, M) {
    let mut m = M::new();
    let mut v = vec![];
    for t in ts {
        if m.stop {
            v.push((vec![], vec![]));
            continue;
        }
        let (a, b) = m.step(t);
        let mut tt = a.clone();
        tt.extend(b);
        v.push((a, tt));
    }
    (v, m)
}
fn probes(m: &M) -> Vec<Vec<SMRTrigger>> {
    let e = Bytes::new();
    let (st, ti) = (TriggerSource::State, TriggerSource::Timer);
    vec![
        vec![mk(TriggerType::Proposal, ti.clone(), &e, None, m.r, m.h, None)],
        vec![mk(TriggerType::PrevoteQC, ti.clone(), &e, None, m.r, m.h, None)],
        vec![mk(TriggerType::PrecommitQC, ti.clone(), &e, None, m.r, m.h, None)],
        vec![mk(TriggerType::Proposal, st.clone(), &Bytes::from("Z"), None, m.r, m.h, None)],
        vec![mk(TriggerType::Proposal, st.clone(), &Bytes::from("Z"), m.lock.as_ref().map(|l| l.round), m.r, m.h, None)],
        vec![mk(TriggerType::ContinueRound, st, &e, None, m.r.saturating_add(1), m.h, None)],
    ]
}
fn tags(m: &M, t: &SMRTrigger, got: &[SMREvent], want: &[SMREvent], panicked: bool) -> Vec<&'static str> {
    let timer = t.source == TriggerSource::Timer;
    let stale = t.height != m.h || t.round < m.r;
    let over = match t.trigger_type {
        TriggerType::Proposal => m.step > Step::Propose,
        TriggerType::PrevoteQC => t.round == m.r && m.step > Step::Prevote,
        TriggerType::PrecommitQC => m.step == Step::Commit,
        _ => false,
    };
    let mut v: Vec<&'static str> = match t.trigger_type {
        TriggerType::Proposal | TriggerType::PrevoteQC | TriggerType::PrecommitQC | TriggerType::BrakeTimeout if timer => vec!["C09"],
        TriggerType::Proposal => vec!["C06"],
        TriggerType::PrevoteQC => vec!["C06"],
        TriggerType::PrecommitQC => vec!["C08"],
        TriggerType::ContinueRound => vec!["C07", "C17"],
        TriggerType::WalInfo => vec!["C12"],
        TriggerType::NewHeight(_) => vec!["C18", "C07"],
        TriggerType::Stop => vec!["C25"],
        _ => vec!["C07"],
    };
    if stale || over {
        v.push("C07");
    }
    let com = |e: &[SMREvent]| e.iter().any(|x| matches!(x, SMREvent::Commit(_)));
    let lock = |e: &[SMREvent]| e.iter().map(|x| match x {
        SMREvent::NewRoundInfo { lock_round, lock_proposal, .. } => format!("{:?}{:?}", lock_round, lock_proposal),
        SMREvent::PrevoteVote { lock_round, .. } | SMREvent::PrecommitVote { lock_round, .. } | SMREvent::Brake { lock_round, .. } => format!("{:?}", lock_round),
        _ => String::new(),
    }).collect::<Vec<_>>();
    let pre = |e: &[SMREvent]| e.iter().filter_map(|x| if let SMREvent::PrecommitVote { block_hash, .. } = x { Some(block_hash.clone()) } else { None }).collect::<Vec<_>>();
    let pv = |e: &[SMREvent]| e.iter().filter_map(|x| if let SMREvent::PrevoteVote { block_hash, .. } = x { Some(block_hash.clone()) } else { None }).collect::<Vec<_>>();
    let hr = |e: &[SMREvent]| e.iter().map(|x| match x {
        SMREvent::NewRoundInfo { height, round, .. } | SMREvent::PrevoteVote { height, round, .. } | SMREvent::PrecommitVote { height, round, .. } | SMREvent::Brake { height, round, .. } => (*height, *round),
        _ => (0, 0),
    }).collect::<Vec<_>>();
    if com(got) != com(want) || pre(got) != pre(want) {
        v.push("C08");
    }
    if lock(got) != lock(want) || pv(got) != pv(want) {
        v.push("C06");
    }
    if hr(got) != hr(want) || pre(got).len() != pre(want).len() || pv(got).len() != pv(want).len() {
        v.push("C07");
    }
    if panicked {
        v.push("C25");
    }
    v
}
pub fn run(rep: &std::sync::Arc<Rep>) {
    rep.rule("seeded trigger sequences of up to 24 triggers (all types, both sources, current, stale and future heights and rounds, 4 hashes); the events for state and timer after every trigger are compared with a restatement of the rules; a difference is traced to its first trigger by replaying prefixes with probes");
    let mut r = Rng::new(rep.seed ^ 0x5312);
    while rep.go(14.0, 150.0) {
        let mut m = M::new();
        let mut ts = vec![];
        for i in 0..2 + r.below(23) {
            let t = gen(&mut r, &m, i == 0);
            m.step(&t);
            ts.push(t);
            if m.stop {
                break;
            }
        }
        let inp = |ts: &[SMRTrigger]| ts.iter().map(|t| format!("{:?} {:?} hash {:?} lock {:?} h {} r {} {:?}", t.trigger_type, t.source, t.hash, t.lock_round, t.height, t.round, t.wal_info)).collect::<Vec<_>>().join(" ; ");
        rep.at(inp(&ts));
        rep.case(&inp(&ts));
        rep.sample(|| inp(&ts));
        let (got, p) = play(&ts);
        let (want, end) = expect(&ts);
        // hidden state shows in a probe
        let ps = if end.stop { vec![] } else { probes(&end) };
        let mut bad = p || got != want;
        if !bad && !ps.is_empty() {
            let k = r.below(ps.len() as u64) as usize;
            let mut x = ts.clone();
            x.extend(ps[k].clone());
            let (g, p) = play(&x);
            bad = p || g != expect(&x).0;
        }
        if !bad {
            continue;
        }
        // the first trigger after which the machine differs
        'outer: for j in 1..=ts.len() {
            let pre = &ts[..j];
            let (want, end) = expect(pre);
            let (_, before) = expect(&ts[..j - 1]);
            let mut all = vec![vec![]];
            if !end.stop {
                all.extend(probes(&end));
            }
            for pr in all {
                let mut x = pre.to_vec();
                x.extend(pr.clone());
                let (g, p) = play(&x);
                let w = expect(&x).0;
                if p || g != w {
                    let mut ge: Vec<SMREvent> = g[j - 1..].iter().flat_map(|x| x.0.clone()).collect();
                    let mut we: Vec<SMREvent> = w[j - 1..].iter().flat_map(|x| x.0.clone()).collect();
                    if ge == we {
                        ge = g[j - 1..].iter().flat_map(|x| x.1.clone()).collect();
                        we = w[j - 1..].iter().flat_map(|x| x.1.clone()).collect();
                    }
                    let tg = tags(&before, &ts[j - 1], &ge, &we, p);
                    rep.fail(&tg, "smr", format!("after trigger {} ({:?} {:?}) the machine emits {:?}, expected {:?}{}{}", j, ts[j - 1].trigger_type, ts[j - 1].source, ge, we, if pr.is_empty() { "" } else { " (seen through a probe trigger)" }, if p { " and panics" } else { "" }), inp(&x));
                    break 'outer;
                }
            }
            let _ = want;
        }
    }
}
