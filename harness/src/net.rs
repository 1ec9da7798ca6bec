//! C26 (C07, C12, C13, C18): clusters of whole instances over a simulated network, under a paused clock.
//! An adversary owns the faulty validators: it signs anything for them and makes every certificate that the votes it saw allow.
use crate::mock::*;
use crate::rng::*;
use crate::verify::{choke_hash, mk_qc, prop_hash, qc_valid, vote_hash};
use async_trait::async_trait;
use bytes::Bytes;
use creep::Context;
use overlord::types::*;
use overlord::verif::{AuthorityManage, WalInfo};
use overlord::{Consensus, DurationConfig, Overlord, OverlordHandler, Wal};
use std::collections::{BTreeMap, BTreeSet};
use std::error::Error;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::time::Instant;

type Msg = OverlordMsg<Blk>;

#[derive(Default)]
struct Adv {
    votes: BTreeMap<(u64, u64, u8, Bytes), BTreeSet<Bytes>>,
    qcs: Vec<AggregatedVote>,
    blocks: BTreeMap<Bytes, Bytes>,
    chokes: BTreeMap<(u64, u64), BTreeSet<Bytes>>,
    top: (u64, u64),
    fresh: u64,
}
struct World {
    start: Instant,
    r: Mutex<Rng>,
    addrs: Vec<Bytes>,
    weights: Vec<u32>,
    bad: Vec<Bytes>,
    interval: u64,
    lag: u64,
    loss: u64,
    hs: Mutex<Vec<Option<OverlordHandler<Blk>>>>,
    life: Mutex<Vec<u64>>,
    wal: Mutex<Vec<Option<Bytes>>>,
    plans: Mutex<BTreeMap<u64, Vec<Node>>>,
    statuses: Mutex<BTreeMap<u64, Status>>,
    commits: Mutex<Vec<(u64, usize, u64, Commit<Blk>)>>,
    voted: Mutex<BTreeMap<(usize, u64, u64, u8), (Bytes, u64)>>,
    checked: Mutex<BTreeSet<(usize, u64, u64, Bytes)>>,
    asked: Mutex<Vec<(u64, usize, u64)>>,
    adv: Mutex<Adv>,
    calm: Mutex<bool>,
    log: Mutex<Vec<String>>,
    fails: Mutex<Vec<(Vec<&'static str>, &'static str, String)>>,
}
fn vt(t: u8) -> VoteType {
    if t == 1 { VoteType::Prevote } else { VoteType::Precommit }
}
fn ty(t: &VoteType) -> u8 {
    if *t == VoteType::Prevote { 1 } else { 2 }
}
impl World {
    fn ms(&self) -> u64 {
        self.start.elapsed().as_millis() as u64
    }
    fn note(&self, s: String) {
        let t = self.ms();
        self.log.lock().unwrap().push(format!("{} ms {}", t, s));
    }
    fn fail(&self, p: &[&'static str], k: &'static str, s: String) {
        self.fails.lock().unwrap().push((p.to_vec(), k, s));
    }
    fn below(&self, n: u64) -> u64 {
        self.r.lock().unwrap().below(n)
    }
    fn chance(&self, n: u64) -> bool {
        self.r.lock().unwrap().chance(n)
    }
    /// the authority list of a height: now and then a validator is left out
    fn list(&self, h: u64) -> Vec<Node> {
        if let Some(l) = self.plans.lock().unwrap().get(&h) {
            return l.clone();
        }
        let r = &mut *self.r.lock().unwrap();
        let mut l: Vec<Node> = self.addrs.iter().zip(self.weights.iter()).map(|(a, w)| node(a, 1 + r.below(3) as u32, *w)).collect();
        if h > 1 && r.chance(20) {
            let i = r.below(l.len() as u64) as usize;
            let mut m = l.clone();
            m.remove(i);
            if weight(&m, &self.bad) * 3 < total(&m) && m.iter().any(|n| !self.bad.contains(&n.address)) {
                l = m;
            }
        }
        r.shuffle(&mut l);
        self.plans.lock().unwrap().insert(h, l.clone());
        l
    }
    fn status(&self, h: u64) -> Status {
        let l = self.list(h);
        let mut m = self.statuses.lock().unwrap();
        let r = &mut *self.r.lock().unwrap();
        m.entry(h)
            .or_insert_with(|| Status {
                height: h,
                interval: if r.chance(40) { Some(*r.pick(&[self.interval, self.interval * 2, self.interval / 2, self.interval * 3])) } else { None },
                timer_config: if r.chance(20) { Some(DurationConfig::new(10 + r.below(20), 5 + r.below(20), 5 + r.below(20), 2 + r.below(10))) } else { None },
                authority_list: l,
            })
            .clone()
    }
    fn leader(&self, h: u64, ro: u64) -> Bytes {
        let mut a = AuthorityManage::new();
        a.update(&mut self.list(h));
        a.get_proposer(h, ro).unwrap()
    }
    fn deliver(self: &Arc<Self>, to: usize, m: Msg, lossy: bool) {
        let calm = *self.calm.lock().unwrap();
        let n = if calm || !lossy { 1 } else if self.chance(self.loss) { 0 } else if self.chance(8) { 2 } else { 1 };
        for _ in 0..n {
            let d = if calm { 1 + self.below(5) } else if self.chance(10) { self.below(self.lag * 10 + 1) } else { self.below(self.lag + 1) };
            let (w, m) = (Arc::clone(self), m.clone());
            tokio::spawn(async move {
                tokio::time::sleep(Duration::from_millis(d)).await;
                let h = w.hs.lock().unwrap()[to].clone();
                if let Some(h) = h {
                    let _ = h.send_msg(Context::new(), m);
                }
            });
        }
    }
    /// an honest node sent this
    fn sent(self: &Arc<Self>, me: usize, life: u64, to: Option<Bytes>, m: Msg) {
        let own = self.addrs[me].clone();
        self.note(format!("{} sends to {:?} {:?}", me, to, m));
        {
            let mut a = self.adv.lock().unwrap();
            let (h, ro) = match &m {
                OverlordMsg::SignedProposal(p) => {
                    a.blocks.insert(p.proposal.block_hash.clone(), p.proposal.content.0.clone());
                    (p.proposal.height, p.proposal.round)
                }
                OverlordMsg::SignedVote(v) => {
                    let k = (me, v.vote.height, v.vote.round, ty(&v.vote.vote_type));
                    let x = self.voted.lock().unwrap().entry(k).or_insert((v.vote.block_hash.clone(), life)).clone();
                    if x.0 != v.vote.block_hash {
                        let p: &[&'static str] = if x.1 == life { &["C07", "C26"] } else { &["C12", "C26"] };
                        self.fail(p, "double", format!("validator {} sends two different votes: {:?}, before for {:?}", me, v, x.0));
                    }
                    if v.voter != own || v.signature != msign(&own, &vote_hash(&v.vote)) {
                        self.fail(&["C22", "C27"], "signer", format!("validator {} sends a vote that is not its own or not well signed: {:?}", me, v));
                    }
                    if to.as_ref().map_or(true, |t| self.bad.contains(t)) {
                        a.votes.entry((v.vote.height, v.vote.round, ty(&v.vote.vote_type), v.vote.block_hash.clone())).or_default().insert(own.clone());
                    }
                    (v.vote.height, v.vote.round)
                }
                OverlordMsg::AggregatedVote(q) => {
                    if !qc_valid(&self.list(q.height), q) {
                        self.fail(&["C03", "C01", "C04"], "certificate", format!("validator {} broadcasts the invalid certificate {:?}", me, q));
                    }
                    a.qcs.push(q.clone());
                    (q.height, q.round)
                }
                OverlordMsg::SignedChoke(c) => {
                    a.chokes.entry((c.choke.height, c.choke.round)).or_default().insert(own.clone());
                    (c.choke.height, c.choke.round)
                }
                _ => (0, 0),
            };
            a.top = a.top.max((h, ro));
        }
        for i in 0..self.addrs.len() {
            if i != me && to.as_ref().map_or(true, |t| *t == self.addrs[i]) {
                self.deliver(i, m.clone(), true);
            }
        }
    }
    /// one deed of the faulty validators
    fn attack(self: &Arc<Self>) {
        let (th, tr) = self.adv.lock().unwrap().top;
        if th == 0 {
            return;
        }
        let (h, ro) = (if self.chance(85) { th } else { th.saturating_sub(1).max(1) }, if self.chance(70) { tr } else { tr.saturating_sub(1) + self.below(3) });
        let l = self.list(h);
        let bad: Vec<Bytes> = self.bad.iter().filter(|b| l.iter().any(|n| n.address == **b)).cloned().collect();
        if bad.is_empty() {
            return;
        }
        let me = bad[self.below(bad.len() as u64) as usize].clone();
        let honest: Vec<usize> = (0..self.addrs.len()).filter(|i| !self.bad.contains(&self.addrs[*i])).collect();
        let (some, other): (Vec<usize>, Vec<usize>) = honest.iter().partition(|_| self.chance(50));
        // the certificates the votes it saw allow, its own votes for anything included
        let make = |a: &mut Adv| {
            let keys: Vec<_> = a.votes.keys().filter(|k| k.0 == h).cloned().collect();
            for k in keys {
                let mut vs: Vec<Bytes> = a.votes[&k].iter().filter(|x| l.iter().any(|n| n.address == **x)).cloned().collect();
                vs.extend(bad.iter().cloned());
                vs.sort();
                vs.dedup();
                if quorum(&l, &vs) && !a.qcs.iter().any(|q| q.height == k.0 && q.round == k.1 && ty(&q.vote_type) == k.2 && q.block_hash == k.3) {
                    let q = mk_qc(&l, &vs, vt(k.2), k.0, k.1, &k.3, &me);
                    a.qcs.push(q);
                }
            }
        };
        let mut out: Vec<(Vec<usize>, Msg)> = vec![];
        {
            let mut a = self.adv.lock().unwrap();
            make(&mut a);
            let r = &mut *self.r.lock().unwrap();
            match r.below(10) {
                0..=3 => {
                    // proposals, in its own rounds: one here, another one there
                    let mut au = AuthorityManage::new();
                    au.update(&mut l.clone());
                    let near = (ro.saturating_sub(1)..ro + 3).find(|x| self.bad.contains(&au.get_proposer(h, *x).unwrap()));
                    let ro = near.unwrap_or(ro);
                    let by = au.get_proposer(h, ro).unwrap();
                    let by = if self.bad.contains(&by) { by } else { me.clone() };
                    for to in vec![some, other] {
                        let qs: Vec<AggregatedVote> = a.qcs.iter().filter(|q| q.height == h && q.vote_type == VoteType::Prevote && q.round < ro && !q.block_hash.is_empty() && a.blocks.contains_key(&q.block_hash)).cloned().collect();
                        let p = if !qs.is_empty() && r.chance(60) {
                            let q = r.pick(&qs).clone();
                            let mut lv = q.clone();
                            let k = q.block_hash.clone();
                            let b = a.blocks[&k].clone();
                            // now and then it lies about the round
                            if r.chance(15) {
                                lv.round += 1;
                            }
                            Proposal { height: h, round: ro, content: Blk(b), block_hash: k, lock: Some(PoLC { lock_round: lv.round, lock_votes: lv }), proposer: by.clone() }
                        } else {
                            let ks: Vec<Bytes> = a.blocks.keys().cloned().collect();
                            let b = if !ks.is_empty() && r.chance(40) { a.blocks[r.pick(&ks)].clone() } else { a.fresh += 1; Bytes::from(format!("evil{}", a.fresh)) };
                            Proposal { height: h, round: ro, content: Blk(b.clone()), block_hash: mhash(&b), lock: None, proposer: by.clone() }
                        };
                        a.blocks.insert(p.block_hash.clone(), p.content.0.clone());
                        let sp = SignedProposal { signature: msign(&by, &prop_hash(&p)), proposal: p };
                        out.push((to, OverlordMsg::SignedProposal(sp)));
                    }
                }
                4 => {
                    let ks: Vec<Bytes> = a.blocks.keys().cloned().collect();
                    for b in &bad {
                        let k = if ks.is_empty() || r.chance(30) { Bytes::new() } else { r.pick(&ks).clone() };
                        let v = Vote { height: h, round: ro, vote_type: vt(1 + r.below(2) as u8), block_hash: k };
                        out.push((honest.clone(), OverlordMsg::SignedVote(SignedVote { signature: msign(b, &vote_hash(&v)), vote: v, voter: b.clone() })));
                    }
                }
                5 => {
                    for b in &bad {
                        let from = match a.qcs.last() { Some(q) if r.chance(60) => if q.vote_type == VoteType::Prevote { UpdateFrom::PrevoteQC(q.clone()) } else { UpdateFrom::PrecommitQC(q.clone()) }, _ => {
                            let e = a.chokes.get(&(h, ro)).cloned().unwrap_or_default();
                            let vs: Vec<Bytes> = e.into_iter().chain(bad.clone()).collect();
                            UpdateFrom::ChokeQC(AggregatedChoke { height: h, round: ro, signature: magg(&vs, &choke_hash(h, ro)), voters: vs })
                        } };
                        out.push((some.clone(), OverlordMsg::SignedChoke(SignedChoke { signature: msign(b, &choke_hash(h, ro)), choke: Choke { height: h, round: ro, from }, address: b.clone() })));
                    }
                }
                6 => {
                    // a certificate that claims voters who did not vote
                    let ks: Vec<Bytes> = a.blocks.keys().cloned().collect();
                    if !ks.is_empty() {
                        let k = r.pick(&ks).clone();
                        let t = 1 + r.below(2) as u8;
                        let all: Vec<Bytes> = l.iter().map(|n| n.address.clone()).collect();
                        let mut vs: Vec<Bytes> = a.votes.get(&(h, ro, t, k.clone())).cloned().unwrap_or_default().into_iter().chain(bad.clone()).collect();
                        vs.sort();
                        vs.dedup();
                        let mut q = mk_qc(&l, &vs, vt(t), h, ro, &k, &me);
                        if !quorum(&l, &vs) && r.chance(50) {
                            q.signature.address_bitmap = bitmap(&l, &all);
                        }
                        if let (true, Some(x)) = (r.chance(40), a.qcs.last()) {
                            // or dresses up another one
                            q = x.clone();
                            match r.below(4) {
                                0 => q.round += 1,
                                1 => q.vote_type = vt(3 - ty(&q.vote_type)),
                                2 => q.block_hash = k,
                                _ => q.height += 1,
                            }
                        }
                        out.push((honest.clone(), OverlordMsg::AggregatedVote(q)));
                    }
                }
                _ => {
                    let n = a.qcs.len();
                    for q in a.qcs[n.saturating_sub(6)..].iter() {
                        if r.chance(50) {
                            out.push((some.clone(), OverlordMsg::AggregatedVote(q.clone())));
                        }
                    }
                }
            }
        }
        for (to, m) in out {
            self.note(format!("faulty send to {:?} {:?}", to, m));
            for i in to {
                self.deliver(i, m.clone(), false);
            }
        }
    }
}
struct Nd {
    w: Arc<World>,
    me: usize,
    life: u64,
}
impl Nd {
    fn alive(&self) -> bool {
        self.w.life.lock().unwrap()[self.me] == self.life
    }
    async fn nap(&self, n: u64) {
        let d = self.w.below(n + 1);
        tokio::time::sleep(Duration::from_millis(d)).await;
    }
}
#[async_trait]
impl Consensus<Blk> for Nd {
    async fn get_block(&self, _c: Context, h: u64) -> Result<(Blk, Hash), Box<dyn Error + Send>> {
        if self.alive() {
            let t = self.w.ms();
            self.w.asked.lock().unwrap().push((t, self.me, h));
        }
        self.nap(self.w.lag / 4).await;
        let n = self.w.below(1 << 40);
        let b = Bytes::from(format!("b{}-{}-{}", h, self.me, n));
        if self.alive() {
            self.w.checked.lock().unwrap().insert((self.me, self.life, h, mhash(&b)));
        }
        Ok((Blk(b.clone()), mhash(&b)))
    }
    async fn check_block(&self, _c: Context, h: u64, hash: Hash, b: Blk) -> Result<(), Box<dyn Error + Send>> {
        self.nap(self.w.lag).await;
        if mhash(&b.0) != hash {
            return err("not the block of this hash");
        }
        if self.alive() {
            self.w.checked.lock().unwrap().insert((self.me, self.life, h, hash));
        }
        Ok(())
    }
    async fn commit(&self, _c: Context, h: u64, x: Commit<Blk>) -> Result<Status, Box<dyn Error + Send>> {
        if !self.alive() {
            return err("gone");
        }
        let t = self.w.ms();
        self.w.note(format!("{} commits {:?}", self.me, x));
        let l = self.w.list(h);
        let q = AggregatedVote { signature: x.proof.signature.clone(), vote_type: VoteType::Precommit, height: x.proof.height, round: x.proof.round, block_hash: x.proof.block_hash.clone(), leader: Bytes::new() };
        if x.height != h || x.proof.height != h || mhash(&x.content.0) != x.proof.block_hash || !qc_valid(&l, &q) {
            self.w.fail(&["C13", "C10"], "proof", format!("validator {} commits at height {} what is not proved: {:?}", self.me, h, x));
        }
        {
            let cs = &mut *self.w.commits.lock().unwrap();
            if let Some(y) = cs.iter().find(|y| y.3.height == h && y.3.proof.block_hash != x.proof.block_hash) {
                self.w.fail(&["C26"], "fork", format!("at height {} validator {} commits {:?} and validator {} commits {:?}", h, y.1, y.3, self.me, x));
            }
            if let Some(y) = cs.iter().find(|y| y.1 == self.me && y.2 == self.life && y.3.height >= h) {
                self.w.fail(&["C13"], "again", format!("validator {} commits at height {} after it committed at height {}", self.me, h, y.3.height));
            }
            cs.push((t, self.me, self.life, x));
        }
        Ok(self.w.status(h + 1))
    }
    async fn get_authority_list(&self, _c: Context, _h: u64) -> Result<Vec<Node>, Box<dyn Error + Send>> {
        Ok(vec![])
    }
    async fn broadcast_to_other(&self, _c: Context, m: Msg) -> Result<(), Box<dyn Error + Send>> {
        if self.alive() {
            self.w.sent(self.me, self.life, None, m);
        }
        Ok(())
    }
    async fn transmit_to_relayer(&self, _c: Context, a: Address, m: Msg) -> Result<(), Box<dyn Error + Send>> {
        if self.alive() {
            self.w.sent(self.me, self.life, Some(a), m);
        }
        Ok(())
    }
    fn report_error(&self, _c: Context, _e: overlord::error::ConsensusError) {}
    fn report_view_change(&self, _c: Context, _h: u64, _r: u64, _w: ViewChangeReason) {}
}
#[async_trait]
impl Wal for Nd {
    async fn save(&self, i: Bytes) -> Result<(), Box<dyn Error + Send>> {
        if self.alive() {
            self.w.wal.lock().unwrap()[self.me] = Some(i);
            return Ok(());
        }
        err("gone")
    }
    async fn load(&self) -> Result<Option<Bytes>, Box<dyn Error + Send>> {
        Ok(self.w.wal.lock().unwrap()[self.me].clone())
    }
}
fn launch(w: &Arc<World>, me: usize, cfg: Option<DurationConfig>) {
    let life = w.life.lock().unwrap()[me];
    let wal = w.wal.lock().unwrap()[me].clone();
    let h = wal.and_then(|b| rlp::decode::<WalInfo<Blk>>(&b).ok()).map_or(0, |x| x.height);
    let nd = Arc::new(Nd { w: Arc::clone(w), me, life });
    let inst = Overlord::new(w.addrs[me].clone(), Arc::clone(&nd), Arc::new(Cry::new(w.addrs[me].clone())), nd);
    w.hs.lock().unwrap()[me] = Some(inst.get_handler());
    let (l, i) = (w.list(h), w.interval);
    w.note(format!("{} starts at height {}", me, h));
    tokio::spawn(async move {
        let _ = inst.run(h, i, l, cfg).await;
    });
}

pub fn run(rep: &std::sync::Arc<Rep>) {
    rep.rule("seeded clusters of 1..6 whole instances of weights 1..3 (faulty ones below a third) over a network that delays, loses, repeats and reorders, with late block checks, crashes and restarts from the log, changing lists, intervals and ratios, while the faulty validators propose twice, vote for anything and pass on every certificate the votes they saw allow; every commit is compared with all others and its proof checked, no honest validator votes twice, a lone validator keeps the announced interval between heights");
    let mut r = Rng::new(rep.seed ^ 0xC26E);
    let mut n = 0u64;
    while rep.go(14.0, 200.0) {
        n += 1;
        one(rep, &mut r, n);
    }
    rep.count("sessions", n);
}

fn one(rep: &Rep, r: &mut Rng, n: u64) {
    let k = if r.chance(12) { 1 } else { 2 + r.below(5) as usize };
    let addrs: Vec<Bytes> = (0..k).map(|i| Bytes::from(format!("val{}", i))).collect();
    let even = r.chance(60);
    let weights: Vec<u32> = (0..k).map(|_| if even { 1 } else { 1 + r.below(3) as u32 }).collect();
    let sum: u32 = weights.iter().sum();
    let mut bad: Vec<Bytes> = vec![];
    let mut bw = 0;
    if r.chance(75) {
        for i in 0..k {
            if (bw + weights[i]) * 3 < sum {
                bw += weights[i];
                bad.push(addrs[i].clone());
            }
        }
    }
    let interval = if k == 1 { *r.pick(&[4000u64, 12000]) } else { *r.pick(&[1000u64, 3000, 400]) };
    let lag = if k == 1 { *r.pick(&[5u64, 50, 200]) } else { *r.pick(&[5u64, 50, interval / 4, interval, interval * 3]) };
    let loss = *r.pick(&[0u64, 0, 10, 30]);
    let crashes = if k > 1 && r.chance(50) { 10 } else { 0 };
    let cfg = if r.chance(40) { Some(DurationConfig::new(10 + r.below(20), 5 + r.below(20), 5 + r.below(20), 2 + r.below(10))) } else { None };
    let seed = r.next();
    let ticks = 60 + r.below(60);
    let head = format!("net suite, seed {}, session {}: {} validators, weights {:?}, faulty {:?}, interval {}, config {:?}, delays up to {}, loss {}%, crashes {}", rep.seed, n, k, weights, bad, interval, cfg, lag, loss, crashes);
    rep.at(head.clone());
    let p0 = PANICS.load(std::sync::atomic::Ordering::SeqCst);
    let w = rt().block_on(async {
        let w = Arc::new(World {
            start: Instant::now(), r: Mutex::new(Rng::new(seed)), addrs: addrs.clone(), weights, bad: bad.clone(), interval, lag, loss,
            hs: Mutex::new(vec![None; k]), life: Mutex::new(vec![0; k]), wal: Mutex::new(vec![None; k]), plans: Mutex::new(BTreeMap::new()), statuses: Mutex::new(BTreeMap::new()),
            commits: Mutex::new(vec![]), voted: Mutex::new(BTreeMap::new()), checked: Mutex::new(BTreeSet::new()), asked: Mutex::new(vec![]), adv: Mutex::new(Adv::default()),
            calm: Mutex::new(false), log: Mutex::new(vec![]), fails: Mutex::new(vec![]),
        });
        let honest: Vec<usize> = (0..k).filter(|i| !bad.contains(&addrs[*i])).collect();
        for i in &honest {
            launch(&w, *i, cfg.clone());
            let s = w.status(1);
            w.deliver(*i, OverlordMsg::RichStatus(s), false);
        }
        let mut down: Vec<(usize, u64)> = vec![];
        for t in 0..ticks {
            // the last third is calm: no loss, short delays, the faulty are silent
            let calm = t * 3 > ticks * 2;
            *w.calm.lock().unwrap() = calm;
            for _ in 0..4 {
                tokio::time::sleep(Duration::from_millis(interval / 4)).await;
                if !bad.is_empty() && !calm {
                    w.attack();
                }
            }
            let mut up = vec![];
            down.retain(|d| if d.1 <= t || calm { up.push(d.0); false } else { true });
            for i in up {
                launch(&w, i, cfg.clone());
            }
            if crashes > 0 && !calm && w.chance(crashes) {
                let i = honest[w.below(honest.len() as u64) as usize];
                let h = w.hs.lock().unwrap()[i].take();
                if let Some(h) = h {
                    w.note(format!("{} crashes", i));
                    w.life.lock().unwrap()[i] += 1;
                    let _ = h.send_msg(Context::new(), OverlordMsg::Stop);
                    down.push((i, t + w.below(6)));
                }
            }
            // the applications tell each other how far they are
            let top = w.commits.lock().unwrap().iter().map(|x| x.3.height).max().unwrap_or(0);
            let mut mine: Vec<u64> = vec![0; k];
            for c in w.commits.lock().unwrap().iter() {
                mine[c.1] = mine[c.1].max(c.3.height);
            }
            for i in &honest {
                if k > 1 && mine[*i] < top && w.chance(30) || t % 9 == 8 && k > 1 {
                    let s = w.status(top + 1);
                    w.deliver(*i, OverlordMsg::RichStatus(s), false);
                }
            }
            if !w.fails.lock().unwrap().is_empty() {
                break;
            }
        }
        for i in &honest {
            let h = w.hs.lock().unwrap()[*i].take();
            if let Some(h) = h {
                let _ = h.send_msg(Context::new(), OverlordMsg::Stop);
            }
        }
        tokio::time::sleep(Duration::from_secs(1000)).await;
        w
    });
    let commits = w.commits.lock().unwrap();
    let log = w.log.lock().unwrap();
    let top = commits.iter().map(|x| x.3.height).max().unwrap_or(0);
    rep.count("heights", top);
    rep.count("commits", commits.len() as u64);
    rep.count("rounds above 0", commits.iter().filter(|x| x.3.proof.round > 0).count() as u64);
    rep.case(&(n, log.len()));
    rep.count("sends", log.len() as u64);
    let last = commits.iter().map(|x| x.0).max().unwrap_or(0);
    rep.count("progress in the calm", (last > interval * ticks * 2 / 3) as u64);
    let shown = || {
        let m = log.len();
        format!("{}\nthe last of {} deeds, newest first:\n  {}", head, m, log.iter().rev().take(80).cloned().collect::<Vec<_>>().join("\n  "))
    };
    rep.sample(|| format!("{}: {} heights, {} deeds", head, top, log.len()));
    if PANICS.load(std::sync::atomic::Ordering::SeqCst) != p0 {
        rep.fail(&["C25"], "panic", format!("an instance panics: {:?}", LAST_PANIC.lock().unwrap()), shown());
        return;
    }
    let fails = w.fails.lock().unwrap();
    if let Some(f) = fails.first() {
        rep.fail(&f.0, f.1, f.2.clone(), shown());
        return;
    }
    if k == 1 {
        // alone it decides at once, and starts the next height an interval after it started this one
        let mut first: BTreeMap<u64, u64> = BTreeMap::new();
        for (t, _, h) in w.asked.lock().unwrap().iter() {
            first.entry(*h).or_insert(*t);
        }
        let mut iv = interval;
        let st = w.statuses.lock().unwrap();
        for h in 1..top {
            if let Some(i) = st.get(&h).and_then(|s| s.interval) {
                iv = i;
            }
            let c = commits.iter().find(|x| x.3.height == h);
            if let (Some(a), Some(b), Some(c)) = (first.get(&h), first.get(&(h + 1)), c) {
                // the node measures how long the height took by the real clock, which hardly moves here
                if *b < c.0.max(a + iv) - iv / 4 || *b > c.0 + iv + 6 {
                    rep.fail(&["C18", "C27"], "pace", format!("height {} begins at {} ms and is committed at {} ms, the interval is {} ms, but height {} begins at {} ms", h, a, c.0, iv, h + 1, b), shown());
                    return;
                }
            }
        }
    }
}
