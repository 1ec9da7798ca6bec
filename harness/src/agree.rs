//! C26: honest state machines of the real code against an adversary that owns the faulty validators,
//! the network and the timers; every certificate it delivers is backed by votes really emitted
use crate::mock::rt;
use crate::rng::*;
use bytes::Bytes;
use futures::{FutureExt, StreamExt};
use overlord::verif::smr_types::*;
use overlord::verif::{Event, SMRBase, SMRHandler, SMR};
use std::collections::{BTreeMap, BTreeSet};

struct Node {
    hd: SMRHandler,
    es: Event,
    et: Event,
    round: u64,
    /// what the write-ahead log holds
    log: Option<(u64, Step, Option<Lock>)>,
    done: Option<Bytes>,
}
struct Net {
    nodes: Vec<Node>,
    byz: usize,
    h: u64,
    pv: BTreeMap<(u64, Bytes), BTreeSet<usize>>,
    pc: BTreeMap<(u64, Bytes), BTreeSet<usize>>,
    log: Vec<String>,
}
fn start() -> (SMRHandler, Event, Event) {
    let (mut smr, es, et) = SMR::new();
    let hd = smr.take_smr();
    smr.run();
    (hd, es, et)
}
fn name(h: &Bytes) -> String {
    if h.is_empty() { "nil".into() } else { String::from_utf8_lossy(h).into_owned() }
}
impl Net {
    fn quorum(&self, s: Option<&BTreeSet<usize>>) -> bool {
        3 * (s.map_or(0, |x| x.len()) + self.byz) > 2 * (self.nodes.len() + self.byz)
    }
    fn pvqc(&self, r: u64, h: &Bytes) -> bool {
        self.quorum(self.pv.get(&(r, h.clone())))
    }
    fn pcqc(&self, r: u64, h: &Bytes) -> bool {
        self.quorum(self.pc.get(&(r, h.clone())))
    }
    fn t(&self, ty: TriggerType, src: TriggerSource, hash: &Bytes, lock: Option<u64>, r: u64, w: Option<SMRBase>) -> SMRTrigger {
        SMRTrigger { trigger_type: ty, source: src, hash: hash.clone(), lock_round: lock, round: r, height: self.h, wal_info: w }
    }
    async fn give(&mut self, i: usize, t: SMRTrigger) {
        let what = match (&t.trigger_type, &t.source) {
            (TriggerType::NewHeight(_), _) => "new height".to_string(),
            (TriggerType::WalInfo, _) => format!("restart from log {:?}", t.wal_info),
            (TriggerType::ContinueRound, _) => format!("choke certificate into round {}", t.round),
            (ty, TriggerSource::Timer) => format!("{:?} timeout round {}", ty, t.round),
            (TriggerType::Proposal, _) => format!("proposal {} round {} PoLC {:?}", name(&t.hash), t.round, t.lock_round),
            (ty, _) => format!("{:?} {} round {}", ty, name(&t.hash), t.round),
        };
        let _ = self.nodes[i].hd.trigger(t);
        for _ in 0..3 {
            tokio::task::yield_now().await;
        }
        let mut out = vec![];
        while let Some(Some(e)) = self.nodes[i].es.next().now_or_never() {
            out.push(e);
        }
        while let Some(Some(_)) = self.nodes[i].et.next().now_or_never() {}
        let mut said = vec![];
        for e in out {
            let find = |lr: Option<u64>, pv: &BTreeMap<(u64, Bytes), BTreeSet<usize>>, s: &Net| lr.and_then(|r| pv.keys().find(|k| k.0 == r && !k.1.is_empty() && s.pvqc(r, &k.1)).map(|k| Lock { round: r, hash: k.1.clone() }));
            match e {
                SMREvent::NewRoundInfo { round, lock_round, lock_proposal, .. } => {
                    self.nodes[i].round = round;
                    let l = lock_round.and_then(|r| lock_proposal.map(|h| Lock { round: r, hash: h }));
                    self.nodes[i].log = Some((round, Step::Propose, l));
                    said.push(format!("enters round {}", round));
                }
                SMREvent::PrevoteVote { round, block_hash, lock_round, .. } => {
                    let l = find(lock_round, &self.pv, self);
                    self.nodes[i].log = Some((round, Step::Prevote, l));
                    said.push(format!("prevotes {} round {}", name(&block_hash), round));
                    self.pv.entry((round, block_hash)).or_default().insert(i);
                }
                SMREvent::PrecommitVote { round, block_hash, lock_round, .. } => {
                    let l = find(lock_round, &self.pv, self);
                    self.nodes[i].log = Some((round, Step::Precommit, l));
                    said.push(format!("precommits {} round {}", name(&block_hash), round));
                    self.pc.entry((round, block_hash)).or_default().insert(i);
                }
                SMREvent::Brake { round, lock_round, .. } => {
                    let l = find(lock_round, &self.pv, self);
                    self.nodes[i].log = Some((round, Step::Brake, l));
                }
                SMREvent::Commit(h) => {
                    said.push(format!("COMMITS {}", name(&h)));
                    self.nodes[i].done = Some(h);
                }
                _ => (),
            }
        }
        self.log.push(format!("node {}: {}{}", i, what, if said.is_empty() { String::new() } else { format!(" -> {}", said.join(", ")) }));
    }
    async fn restart(&mut self, i: usize) {
        if let Some((r, s, l)) = self.nodes[i].log.clone() {
            // the old machine stops with the process
            let stop = self.t(TriggerType::Stop, TriggerSource::State, &Bytes::new(), None, r, None);
            let _ = self.nodes[i].hd.trigger(stop);
            for _ in 0..3 {
                tokio::task::yield_now().await;
            }
            let (hd, es, et) = start();
            self.nodes[i].hd = hd;
            self.nodes[i].es = es;
            self.nodes[i].et = et;
            self.nodes[i].round = r;
            let b = SMRBase { height: self.h, round: r, step: s, polc: l };
            let t = self.t(TriggerType::WalInfo, TriggerSource::State, &Bytes::new(), None, r, Some(b));
            self.give(i, t).await;
        }
    }
    /// the decided blocks: hashes with a precommit certificate
    fn decided(&self) -> Vec<(u64, Bytes)> {
        self.pc.keys().filter(|k| !k.1.is_empty() && self.pcqc(k.0, &k.1)).cloned().collect()
    }
}
pub fn run(rep: &std::sync::Arc<Rep>) {
    rep.rule("3, 5 or 6 honest state machines (the real code) and 1, 2 or 2 faulty validators decide one height under a seeded adversary: per round it picks proposals with or without a real PoLC, who gets them, which backed certificates reach whom (also late), timeouts, choke jumps and restarts from the logged position; precommit certificates are held back and delivered last; two certificates for different blocks are a fork");
    let mut r = Rng::new(rep.seed ^ 0xa9ee);
    let hs = [Bytes::from("A"), Bytes::from("B"), Bytes::from("C")];
    let nil = Bytes::new();
    while rep.go(25.0, 300.0) {
        let p0 = PANICS.load(std::sync::atomic::Ordering::SeqCst);
        let (honest, byz) = *r.pick(&[(3, 1), (3, 1), (3, 1), (3, 1), (5, 2), (6, 2)]);
        let (fork, log, dec) = rt().block_on(async {
            let mut n = Net { nodes: vec![], byz, h: 1 + r.below(3), pv: BTreeMap::new(), pc: BTreeMap::new(), log: vec![] };
            for _ in 0..honest {
                let (hd, es, et) = start();
                n.nodes.push(Node { hd, es, et, round: 0, log: None, done: None });
            }
            for i in 0..honest {
                let t = SMRTrigger { trigger_type: TriggerType::NewHeight(SMRStatus { height: n.h, new_interval: None, new_config: None }), source: TriggerSource::State, hash: nil.clone(), lock_round: None, round: 0, height: n.h, wal_info: None };
                n.give(i, t).await;
            }
            let rounds = 3 + r.below(5);
            // the block that is favoured; changes once it is decided in secret
            let mut fav = hs[0].clone();
            let calm = r.chance(60);
            for ro in 0..rounds {
                if let Some(d) = n.decided().first() {
                    if r.chance(70) && fav == d.1 && r.chance(50) {
                        fav = hs[1 + r.below(2) as usize].clone();
                    }
                }
                let polcs: Vec<(u64, Bytes)> = n.pv.keys().filter(|k| !k.1.is_empty() && k.0 < ro && n.pvqc(k.0, &k.1)).cloned().collect();
                // the leader's proposal, and whether a faulty leader tells different nodes different things
                let two = r.chance(15);
                let mut props = vec![];
                for _ in 0..2 {
                    let x = if !polcs.is_empty() && r.chance(60) {
                        let k = if r.chance(70) { polcs.last().unwrap().clone() } else { r.pick(&polcs).clone() };
                        (k.1, Some(k.0))
                    } else {
                        (if r.chance(80) { fav.clone() } else { r.pick(&hs).clone() }, None)
                    };
                    props.push(x);
                }
                let reach = *r.pick(&[100, 100, 75, 50]);
                let pvd = *r.pick(&[100, 75, 35, 35, 0]);
                for i in 0..honest {
                    if n.nodes[i].round == ro && r.chance(reach) {
                        let p = if two { props[r.below(2) as usize].clone() } else { props[0].clone() };
                        let t = n.t(TriggerType::Proposal, TriggerSource::State, &p.0, p.1, ro, None);
                        n.give(i, t).await;
                    }
                    if r.chance(4) {
                        n.restart(i).await;
                    }
                }
                for i in 0..honest {
                    if n.nodes[i].round == ro && (!calm || r.chance(85)) {
                        let t = n.t(TriggerType::Proposal, TriggerSource::Timer, &nil, None, ro, None);
                        n.give(i, t).await;
                    }
                }
                // prevote certificates that exist now, of this round or late ones
                let order: Vec<usize> = { let mut v: Vec<usize> = (0..honest).collect(); for k in 0..honest { let j = r.below(honest as u64) as usize; v.swap(k, j); } v };
                for &i in &order {
                    let mut c: Vec<(u64, Bytes)> = n.pv.keys().filter(|k| n.pvqc(k.0, &k.1) && k.0 >= n.nodes[i].round).cloned().collect();
                    if r.chance(8) {
                        c = n.pv.keys().filter(|k| n.pvqc(k.0, &k.1)).cloned().collect();
                    }
                    if !c.is_empty() && r.chance(pvd) {
                        let k = r.pick(&c).clone();
                        let t = n.t(TriggerType::PrevoteQC, TriggerSource::State, &k.1, None, k.0, None);
                        n.give(i, t).await;
                    }
                    if r.chance(4) {
                        n.restart(i).await;
                    }
                }
                for &i in &order {
                    if n.nodes[i].round == ro && (!calm || r.chance(90)) {
                        let t = n.t(TriggerType::PrevoteQC, TriggerSource::Timer, &nil, None, ro, None);
                        n.give(i, t).await;
                    }
                }
                for &i in &order {
                    if r.chance(40) && n.pcqc(ro, &nil) {
                        let t = n.t(TriggerType::PrecommitQC, TriggerSource::State, &nil, None, ro, None);
                        n.give(i, t).await;
                    }
                    if n.nodes[i].round == ro {
                        let t = n.t(TriggerType::PrecommitQC, TriggerSource::Timer, &nil, None, ro, None);
                        n.give(i, t).await;
                        if r.chance(20) {
                            let t = n.t(TriggerType::BrakeTimeout, TriggerSource::Timer, &nil, None, ro, None);
                            n.give(i, t).await;
                        }
                    }
                    if r.chance(4) {
                        n.restart(i).await;
                    }
                }
                for &i in &order {
                    if n.nodes[i].round <= ro && r.chance(97) {
                        let t = n.t(TriggerType::ContinueRound, TriggerSource::State, &nil, None, ro + 1, None);
                        n.give(i, t).await;
                    }
                    // an old certificate that comes late
                    if r.chance(6) {
                        let c: Vec<(u64, Bytes)> = n.pv.keys().filter(|k| n.pvqc(k.0, &k.1)).cloned().collect();
                        if !c.is_empty() {
                            let k = r.pick(&c).clone();
                            let t = n.t(TriggerType::PrevoteQC, TriggerSource::State, &k.1, None, k.0, None);
                            n.give(i, t).await;
                        }
                    }
                }
                if n.decided().iter().any(|d| d.1 != n.decided()[0].1) {
                    break;
                }
            }
            let dec = n.decided();
            // deliver what was held back, one certificate per node
            for i in 0..honest {
                if !dec.is_empty() {
                    let k = if i == 0 { &dec[0] } else { dec.iter().find(|d| d.1 != dec[0].1).unwrap_or(&dec[0]) }.clone();
                    let t = n.t(TriggerType::PrecommitQC, TriggerSource::State, &k.1, None, k.0, None);
                    n.give(i, t).await;
                }
            }
            let blocks: BTreeSet<Bytes> = n.nodes.iter().filter_map(|x| x.done.clone()).collect();
            (if blocks.len() > 1 { Some(format!("honest nodes commit different blocks of height {}: {:?}", n.h, blocks.iter().map(name).collect::<Vec<_>>())) } else { None }, n.log.join("\n"), !dec.is_empty())
        });
        let p = PANICS.load(std::sync::atomic::Ordering::SeqCst) != p0;
        rep.at(log.clone());
        rep.case(&log);
        rep.count("decided", dec as u64);
        rep.sample(|| log.clone());
        if let Some(f) = fork {
            rep.fail(&["C26"], "fork", f, format!("{} honest nodes, {} faulty\n{}", honest, byz, log));
        } else if p {
            rep.fail(&["C25"], "panic", "the state machine panics".into(), log);
        }
    }
}
