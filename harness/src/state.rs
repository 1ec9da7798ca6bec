//! C02, C03, C10..C18, C22, C25: one real State against a plain restatement of its rules.
//! The state's triggers go to a real state machine, whose events come back; the harness plays the other validators, the
//! application, the network, the clock and the crash.
use crate::mock::*;
use crate::rng::*;
use crate::verify::{choke_hash, flip, mk_qc, mq, prop_hash, qc_valid, valid, vote_hash};
use bytes::Bytes;
use creep::Context;
use futures::channel::mpsc::{unbounded, UnboundedReceiver, UnboundedSender};
use futures::{FutureExt, StreamExt};
use overlord::types::*;
use overlord::verif::smr_types::*;
use overlord::verif::{run_state, AuthorityManage, Event, SMRBase, SMRHandler, WalInfo, WalLock, SMR};
use overlord::DurationConfig;
use std::collections::{BTreeMap, VecDeque};
use std::sync::atomic::Ordering;
use std::sync::Arc;

type Msg = OverlordMsg<Blk>;
const INTERVAL: u64 = 100;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct O(&'static str, String);

fn ty(t: &VoteType) -> u8 {
    if *t == VoteType::Prevote {
        1
    } else {
        2
    }
}
fn vt(t: u8) -> VoteType {
    if t == 1 {
        VoteType::Prevote
    } else {
        VoteType::Precommit
    }
}
fn step_of(t: u8) -> Step {
    if t == 1 {
        Step::Prevote
    } else {
        Step::Precommit
    }
}
fn nf(f: &UpdateFrom) -> UpdateFrom {
    match f {
        UpdateFrom::ChokeQC(q) => {
            let mut q = q.clone();
            q.voters.sort();
            UpdateFrom::ChokeQC(q)
        }
        x => x.clone(),
    }
}
fn init_qc() -> AggregatedVote {
    AggregatedVote { signature: AggregatedSignature { signature: Bytes::new(), address_bitmap: Bytes::new() }, vote_type: VoteType::Precommit, height: 0, round: 0, block_hash: Bytes::new(), leader: Bytes::new() }
}
fn trig(t: TriggerType, h: u64, r: u64, k: &Bytes, l: Option<u64>) -> SMRTrigger {
    SMRTrigger { trigger_type: t, source: TriggerSource::State, hash: k.clone(), lock_round: l, round: r, height: h, wal_info: None }
}
fn tkind(t: &SMRTrigger) -> &'static str {
    match t.trigger_type {
        TriggerType::Proposal => "Proposal",
        TriggerType::PrevoteQC => "PrevoteQC",
        TriggerType::PrecommitQC => "PrecommitQC",
        TriggerType::NewHeight(_) => "NewHeight",
        TriggerType::WalInfo => "WalInfo",
        TriggerType::BrakeTimeout => "BrakeTimeout",
        TriggerType::ContinueRound => "Continue",
        TriggerType::Stop => "Stop",
    }
}
fn wal_text(w: &WalInfo<Blk>) -> String {
    format!("{} {} {:?} {:?} {:?}", w.height, w.round, w.step, w.lock, nf(&w.from))
}
fn choke_text(c: &SignedChoke) -> String {
    let mut c = c.clone();
    c.choke.from = nf(&c.choke.from);
    format!("{:?}", c)
}
fn qc_text(q: &AggregatedVote) -> String {
    format!("{:?} {} {} {:?} {:?}", q.vote_type, q.height, q.round, q.block_hash, q.leader)
}

/// the rules, restated
#[derive(Clone)]
struct M {
    me: Bytes,
    h: u64,
    r: u64,
    power: bool,
    list: Vec<Node>,
    auth: AuthorityManage,
    props: BTreeMap<(u64, u64), SignedProposal<Blk>>,
    votes: BTreeMap<(u64, u64, u8), BTreeMap<Bytes, SignedVote>>,
    qid: BTreeMap<(u64, u64, u8), AggregatedVote>,
    qh: BTreeMap<(u64, Bytes, u8), AggregatedVote>,
    chokes: BTreeMap<u64, BTreeMap<Bytes, SignedChoke>>,
    cq: BTreeMap<u64, AggregatedChoke>,
    content: BTreeMap<Bytes, Blk>,
    full: BTreeMap<Bytes, bool>,
    lead: bool,
    relay: Bytes,
    from: UpdateFrom,
    stopped: bool,
    ended: bool,
    queue: VecDeque<Msg>,
    out: Vec<O>,
    /// the certificates the real node broadcast in this action
    seen: Vec<AggregatedVote>,
    bad_qc: Vec<String>,
    made: Vec<(AggregatedVote, Vec<Bytes>, Vec<Bytes>)>,
    /// votes kept from before the height, counted on entering it
    released: Vec<SignedVote>,
    wal_ok: u32,
    sign_fail: bool,
    next_block: Option<(Blk, Bytes)>,
    next_status: Option<Status>,
    holds: Vec<(u64, u64, Bytes, Blk)>,
    saved: Option<WalInfo<Blk>>,
}
fn mauth(l: &[Node]) -> AuthorityManage {
    let mut a = AuthorityManage::new();
    a.update(&mut l.to_vec());
    a
}
impl M {
    fn new(me: &Bytes, h: u64, list: &[Node]) -> M {
        M { me: me.clone(), h, r: 0, power: list.iter().any(|n| n.address == *me), list: sorted(list), auth: mauth(list), props: BTreeMap::new(), votes: BTreeMap::new(), qid: BTreeMap::new(), qh: BTreeMap::new(), chokes: BTreeMap::new(), cq: BTreeMap::new(), content: BTreeMap::new(), full: BTreeMap::new(), lead: false, relay: Bytes::new(), from: UpdateFrom::PrecommitQC(init_qc()), stopped: false, ended: false, queue: VecDeque::new(), out: vec![], seen: vec![], bad_qc: vec![], made: vec![], released: vec![], wal_ok: u32::MAX, sign_fail: false, next_block: None, next_status: None, holds: vec![], saved: None }
    }
    fn leader(&self, h: u64, r: u64) -> Bytes {
        self.auth.get_proposer(h, r).unwrap()
    }
    fn listed(&self, a: &Bytes) -> bool {
        self.list.iter().any(|n| n.address == *a)
    }
    fn is_full(&self, k: &Bytes) -> bool {
        k.is_empty() || self.full.get(k).cloned().unwrap_or(false)
    }
    fn trig(&mut self, t: SMRTrigger) {
        self.out.push(O(tkind(&t), format!("{:?}", t)));
    }
    fn save(&mut self, step: Step, lock: Option<WalLock<Blk>>) -> bool {
        let w = WalInfo { height: self.h, round: self.r, step, lock, from: self.from.clone() };
        let ok = self.wal_ok > 0;
        self.out.push(O(if ok { "Save" } else { "SaveFail" }, wal_text(&w)));
        if ok {
            self.saved = Some(w);
            self.wal_ok -= 1;
        }
        ok
    }
    fn save_lock(&mut self, step: Step, lr: Option<u64>) -> bool {
        let lock = match lr {
            None => None,
            Some(r) => match self.qid.get(&(self.h, r, 1)) {
                None => return false,
                Some(q) => match self.content.get(&q.block_hash) {
                    None => return false,
                    Some(b) => Some(WalLock { lock_round: r, lock_votes: q.clone(), content: b.clone() }),
                },
            },
        };
        self.save(step, lock)
    }
    fn set_qc(&mut self, q: &AggregatedVote) {
        self.qid.insert((q.height, q.round, ty(&q.vote_type)), q.clone());
        self.qh.insert((q.height, q.block_hash.clone(), ty(&q.vote_type)), q.clone());
    }
    fn insert_vote(&mut self, v: &SignedVote) {
        self.votes.entry((v.vote.height, v.vote.round, ty(&v.vote.vote_type))).or_default().entry(v.voter.clone()).or_insert(v.clone());
    }
    fn voters(&self, t: u8, k: &Bytes) -> Vec<Bytes> {
        self.votes.get(&(self.h, self.r, t)).map_or(vec![], |m| m.values().filter(|v| v.vote.block_hash == *k).map(|v| v.voter.clone()).collect())
    }
    /// the block that more than two thirds voted for in this round
    fn winner(&self, t: u8) -> Option<Bytes> {
        let m = self.votes.get(&(self.h, self.r, t))?;
        m.values().map(|v| v.vote.block_hash.clone()).find(|k| quorum(&self.list, &self.voters(t, k)))
    }
    /// a certificate is made of votes that are there; which of them is left to the node
    fn certify(&mut self, t: u8, k: &Bytes) {
        let all = self.voters(t, k);
        let got = self.seen.iter().rev().find(|q| q.height == self.h && q.round == self.r && ty(&q.vote_type) == t && q.block_hash == *k).cloned();
        let q = match got {
            Some(q) => {
                let vs = unbitmap(&self.list, &q.signature.address_bitmap);
                if !qc_valid(&self.list, &q) || q.leader != self.me {
                    self.bad_qc.push(format!("{:?}", q));
                }
                // votes kept from before the height may be counted in any order, so some of them may be counted only later here
                self.made.push((q.clone(), vs, all.clone()));
                q
            }
            None => mk_qc(&self.list, &all, vt(t), self.h, self.r, k, &self.me),
        };
        self.set_qc(&q);
        self.out.push(O("CastQC", qc_text(&q)));
        if self.is_full(k) {
            let tt = if t == 1 { TriggerType::PrevoteQC } else { TriggerType::PrecommitQC };
            self.trig(trig(tt, self.h, self.r, k, None));
        }
    }
    fn check(&mut self, k: &Bytes, b: &Blk) {
        self.out.push(O("Check", format!("{} {:?} {:?}", self.h, k, b)));
        self.holds.push((self.h, self.r, k.clone(), b.clone()));
    }
    fn past(&self, h: u64, r: u64) -> bool {
        h < self.h || (h == self.h && r < self.r) || self.h + 5 < h || (h == self.h && self.r + 10 < r) || (h > self.h && r > 10)
    }
    fn proposal(&mut self, sp: SignedProposal<Blk>) {
        let p = sp.proposal.clone();
        if !self.listed(&p.proposer) || self.leader(p.height, p.round) != p.proposer || self.past(p.height, p.round) {
            return;
        }
        if p.height > self.h || p.round != self.r {
            self.props.entry((p.height, p.round)).or_insert(sp);
            return;
        }
        if let Some(l) = &p.lock {
            let q = &l.lock_votes;
            if q.vote_type != VoteType::Prevote || q.height != p.height || q.round != l.lock_round || q.block_hash != p.block_hash || l.lock_round >= p.round {
                return;
            }
        }
        if let Some(x) = self.props.get(&(p.height, p.round)) {
            if *x != sp {
                return;
            }
        } else {
            self.props.insert((p.height, p.round), sp);
        }
        if !self.is_full(&p.block_hash) {
            self.content.insert(p.block_hash.clone(), p.content.clone());
        }
        self.trig(trig(TriggerType::Proposal, self.h, self.r, &p.block_hash, p.lock.as_ref().map(|l| l.lock_round)));
        self.check(&p.block_hash, &p.content);
    }
    fn vote(&mut self, v: SignedVote) {
        let t = ty(&v.vote.vote_type);
        if self.past(v.vote.height, v.vote.round) || !self.listed(&v.voter) || self.qid.contains_key(&(v.vote.height, v.vote.round, t)) {
            return;
        }
        self.insert_vote(&v);
        if v.vote.height > self.h {
            return;
        }
        if let Some(k) = self.winner(t) {
            self.certify(t, &k);
        }
    }
    fn qc(&mut self, q: AggregatedVote) {
        if q.height < self.h {
            return;
        }
        if q.height > self.h {
            if self.h + 5 > q.height && q.round < 10 {
                self.set_qc(&q);
            }
            return;
        }
        if q.round < self.r && (q.vote_type == VoteType::Prevote || q.block_hash.is_empty()) {
            return;
        }
        self.set_qc(&q);
        if self.is_full(&q.block_hash) {
            let tt = if q.vote_type == VoteType::Prevote { TriggerType::PrevoteQC } else { TriggerType::PrecommitQC };
            self.trig(trig(tt, q.height, q.round, &q.block_hash, None));
        }
    }
    fn choke(&mut self, c: SignedChoke) {
        if !self.listed(&c.address) || c.choke.height != self.h || c.choke.round < self.r {
            return;
        }
        if c.choke.round > self.r {
            match &c.choke.from {
                UpdateFrom::PrevoteQC(q) | UpdateFrom::PrecommitQC(q) => {
                    let m = OverlordMsg::AggregatedVote(q.clone());
                    if valid(&self.list, &m) {
                        self.queue.push_back(m);
                    }
                }
                UpdateFrom::ChokeQC(a) => self.agg_choke(a),
            }
            return;
        }
        self.chokes.entry(c.choke.round).or_default().insert(c.address.clone(), c);
        self.count_chokes();
    }
    fn agg_choke(&mut self, a: &AggregatedChoke) {
        let mut d = a.voters.clone();
        d.sort();
        d.dedup();
        if a.height != self.h || d.len() != a.voters.len() || a.voters.iter().any(|v| !self.listed(v)) || d.len() * 3 <= self.list.len() * 2 || a.signature != magg(&d, &choke_hash(a.height, a.round)) || a.round == u64::MAX {
            return;
        }
        self.cq.insert(a.round, a.clone());
        self.trig(trig(TriggerType::ContinueRound, self.h, a.round + 1, &Bytes::new(), None));
    }
    fn count_chokes(&mut self) {
        let top = self.chokes.iter().rev().find(|(_, m)| m.len() * 3 > self.list.len() * 2).map(|(r, m)| (*r, m.keys().cloned().collect::<Vec<_>>()));
        if let Some((r, vs)) = top {
            if r >= self.r {
                let sig = magg(&vs, &choke_hash(self.h, r));
                self.cq.insert(r, AggregatedChoke { height: self.h, round: r, signature: sig, voters: vs });
                self.trig(trig(TriggerType::ContinueRound, self.h, r + 1, &Bytes::new(), None));
            }
        }
    }
    fn status(&mut self, s: Status) {
        if s.height <= self.h {
            return;
        }
        self.h = s.height;
        self.r = 0;
        self.power = s.authority_list.iter().any(|n| n.address == self.me);
        if !self.power {
            return;
        }
        self.list = sorted(&s.authority_list);
        self.auth = mauth(&s.authority_list);
        let h = self.h;
        let (ps, vs, qs): (Vec<_>, Vec<_>, Vec<_>) = (
            self.props.iter().filter(|(k, _)| k.0 == h).map(|(_, v)| v.clone()).collect(),
            self.votes.iter().filter(|(k, _)| k.0 == h).flat_map(|(_, v)| v.values().cloned()).collect(),
            self.qid.iter().filter(|(k, _)| k.0 == h).map(|(_, v)| v.clone()).collect(),
        );
        self.released = vs.clone();
        self.props.retain(|k, _| k.0 > h);
        self.votes.retain(|k, _| k.0 > h);
        self.qid.retain(|k, _| k.0 > h);
        self.qh.retain(|k, _| k.0 > h);
        self.content.clear();
        self.full.clear();
        self.chokes.clear();
        self.cq.clear();
        for m in ps.into_iter().map(OverlordMsg::SignedProposal).chain(vs.into_iter().map(OverlordMsg::SignedVote)).chain(qs.into_iter().map(OverlordMsg::AggregatedVote)) {
            if valid(&self.list, &m) {
                self.queue.push_back(m);
            }
        }
        if !self.save(Step::Propose, None) {
            return;
        }
        let t = SMRTrigger { trigger_type: TriggerType::NewHeight(SMRStatus { height: s.height, new_interval: s.interval, new_config: s.timer_config.clone() }), source: TriggerSource::State, hash: Bytes::new(), lock_round: None, round: 0, height: s.height, wal_info: None };
        self.trig(t);
    }
    fn msg(&mut self, m: Msg) {
        if !self.power && !matches!(m, OverlordMsg::RichStatus(_) | OverlordMsg::Stop) {
            return;
        }
        match m {
            OverlordMsg::SignedProposal(x) => self.proposal(x),
            OverlordMsg::SignedVote(x) => self.vote(x),
            OverlordMsg::AggregatedVote(x) => self.qc(x),
            OverlordMsg::SignedChoke(x) => self.choke(x),
            OverlordMsg::RichStatus(x) => self.status(x),
            OverlordMsg::Stop => {
                let (h, r) = (self.h, self.r);
                self.trig(trig(TriggerType::Stop, h, r, &Bytes::new(), None));
                self.stopped = true;
            }
        }
    }
    fn drain(&mut self) {
        while let Some(m) = self.queue.pop_front() {
            self.msg(m);
        }
    }
    fn net(&mut self, m: Msg) {
        match &m {
            OverlordMsg::RichStatus(_) | OverlordMsg::Stop => self.queue.push_back(m),
            _ => {
                let h = mheight(&m);
                if h > self.h {
                    self.msg(m);
                } else if h == self.h && valid(&self.list, &m) {
                    self.queue.push_back(m);
                }
            }
        }
        self.drain();
    }
    fn resp(&mut self, h: u64, r: u64, k: &Bytes) {
        if !self.power || h != self.h {
            return;
        }
        if !self.is_full(k) {
            if let Some(p) = self.props.get(&(h, r)) {
                if p.proposal.block_hash == *k {
                    self.content.insert(k.clone(), p.proposal.content.clone());
                }
            }
        }
        self.full.insert(k.clone(), true);
        if let Some(q) = self.qh.get(&(self.h, k.clone(), 2)).cloned() {
            self.trig(trig(TriggerType::PrecommitQC, q.height, q.round, k, None));
        } else if let Some(q) = self.qh.get(&(self.h, k.clone(), 1)).cloned() {
            if q.round == self.r {
                self.trig(trig(TriggerType::PrevoteQC, q.height, q.round, k, None));
            }
        }
    }
    fn new_round(&mut self, r: u64, lr: Option<u64>, lp: Option<Bytes>, fw: FromWhere) {
        self.r = r;
        self.lead = false;
        if lr.is_some() != lp.is_some() {
            return;
        }
        let f = match fw {
            FromWhere::PrevoteQC(x) => self.qid.get(&(self.h, x, 1)).cloned().map(UpdateFrom::PrevoteQC),
            FromWhere::PrecommitQC(x) => {
                if x == u64::MAX {
                    Some(UpdateFrom::PrecommitQC(init_qc()))
                } else {
                    self.qid.get(&(self.h, x, 2)).cloned().map(UpdateFrom::PrecommitQC)
                }
            }
            FromWhere::ChokeQC(x) => self.cq.get(&x).cloned().map(UpdateFrom::ChokeQC),
        };
        match f {
            None => return,
            Some(f) => self.from = f,
        }
        if !self.save_lock(Step::Propose, lr) {
            return;
        }
        self.relay = self.leader(self.h, r);
        self.lead = self.relay == self.me;
        if !self.lead {
            if let Some(p) = self.props.get(&(self.h, r)).cloned() {
                self.proposal(p);
            }
            return;
        }
        let (b, k, lock) = match lr {
            None => {
                self.out.push(O("GetBlock", self.h.to_string()));
                match self.next_block.clone() {
                    None => return,
                    Some((b, k)) => (b, k, None),
                }
            }
            Some(x) => {
                let k = lp.unwrap();
                let b = match self.content.get(&k) {
                    None => return,
                    Some(b) => b.clone(),
                };
                match self.qid.get(&(self.h, x, 1)) {
                    None => return,
                    Some(q) => (b, k, Some(PoLC { lock_round: x, lock_votes: q.clone() })),
                }
            }
        };
        self.content.entry(k.clone()).or_insert(b.clone());
        if self.sign_fail {
            return;
        }
        let p = Proposal { height: self.h, round: r, content: b.clone(), block_hash: k.clone(), lock, proposer: self.me.clone() };
        let sp = SignedProposal { signature: msign(&self.me, &prop_hash(&p)), proposal: p };
        self.props.entry((self.h, r)).or_insert(sp.clone());
        self.out.push(O("CastProp", format!("{:?}", sp)));
        self.trig(trig(TriggerType::Proposal, self.h, r, &k, lr));
        self.check(&k, &b);
    }
    fn own_vote(&mut self, t: u8, k: Bytes, lr: Option<u64>) {
        if self.sign_fail || !self.save_lock(step_of(t), lr) {
            return;
        }
        let v = Vote { height: self.h, round: self.r, vote_type: vt(t), block_hash: k };
        let sv = SignedVote { signature: msign(&self.me, &vote_hash(&v)), vote: v, voter: self.me.clone() };
        if self.lead {
            self.insert_vote(&sv);
            if let Some(k) = self.winner(t) {
                self.certify(t, &k);
            }
        } else {
            self.out.push(O("RelayVote", format!("{:?} {:?}", self.relay, sv)));
            if let Some(q) = self.qid.get(&(self.h, self.r, t)).cloned() {
                if self.is_full(&q.block_hash) {
                    let tt = if t == 1 { TriggerType::PrevoteQC } else { TriggerType::PrecommitQC };
                    self.trig(trig(tt, self.h, self.r, &q.block_hash, None));
                }
            }
        }
    }
    /// false: ended with an error
    fn brake(&mut self, r: u64, lr: Option<u64>) -> bool {
        if r != self.r || self.sign_fail {
            return false;
        }
        let c = SignedChoke { signature: msign(&self.me, &choke_hash(self.h, self.r)), choke: Choke { height: self.h, round: self.r, from: self.from.clone() }, address: self.me.clone() };
        self.chokes.entry(self.r).or_default().insert(self.me.clone(), c.clone());
        if !self.save_lock(Step::Brake, lr) {
            return false;
        }
        self.out.push(O("CastChoke", choke_text(&c)));
        self.count_chokes();
        true
    }
    fn commit(&mut self, k: Bytes) {
        let (b, q) = match (self.content.get(&k).cloned(), self.qh.get(&(self.h, k.clone(), 2)).cloned()) {
            (Some(b), Some(q)) => (b, q),
            _ => return,
        };
        if !self.save(Step::Commit, Some(WalLock { lock_round: self.r, lock_votes: q.clone(), content: b.clone() })) {
            return;
        }
        let c = Commit { height: self.h, content: b, proof: Proof { height: self.h, round: q.round, block_hash: k, signature: q.signature } };
        self.out.push(O("Commit", format!("{} {:?}", self.h, c)));
        // an outdated status changes nothing
        if let Some(s) = self.next_status.clone().filter(|s| s.height > self.h) {
            self.list = sorted(&s.authority_list);
            self.auth = mauth(&s.authority_list);
            self.status(s);
        }
    }
    fn event(&mut self, e: SMREvent) {
        if self.stopped {
            self.ended = true;
            return;
        }
        if self.power {
            match e {
                SMREvent::NewRoundInfo { height, round, lock_round, lock_proposal, from_where, .. } if height == self.h => self.new_round(round, lock_round, lock_proposal, from_where),
                SMREvent::PrevoteVote { height, round, block_hash, lock_round } if height == self.h && round == self.r => self.own_vote(1, block_hash, lock_round),
                SMREvent::PrecommitVote { height, round, block_hash, lock_round } if height == self.h && round == self.r => self.own_vote(2, block_hash, lock_round),
                SMREvent::Commit(k) => self.commit(k),
                SMREvent::Brake { height, round, lock_round } if height == self.h => {
                    self.brake(round, lock_round);
                }
                _ => (),
            }
        }
        self.drain();
    }
    fn start(&mut self, w: &Option<Bytes>, load_fail: bool) {
        if !self.power || load_fail {
            return;
        }
        let mut base = SMRBase { height: self.h, round: self.r, step: Step::Propose, polc: None };
        match w {
            None => {
                if self.h == 0 {
                    return;
                }
                self.relay = self.leader(self.h, self.r);
                self.lead = self.relay == self.me;
            }
            Some(b) => {
                let i: WalInfo<Blk> = match rlp::decode(b) {
                    Ok(i) => i,
                    Err(_) => return,
                };
                self.h = i.height;
                self.r = i.round;
                self.relay = self.leader(self.h, self.r);
                self.lead = self.relay == self.me;
                self.from = i.from.clone();
                if let Some(l) = &i.lock {
                    self.set_qc(&l.lock_votes);
                    self.content.insert(l.lock_votes.block_hash.clone(), l.content.clone());
                }
                if i.step == Step::Commit {
                    if let Some(l) = &i.lock {
                        self.commit(l.lock_votes.block_hash.clone());
                        self.drain();
                    }
                    return;
                }
                if i.step == Step::Brake && !self.brake(self.r, i.lock.as_ref().map(|l| l.lock_round)) {
                    return;
                }
                base = SMRBase { height: i.height, round: i.round, step: i.step.clone(), polc: i.lock.as_ref().map(|l| Lock { round: l.lock_round, hash: l.lock_votes.block_hash.clone() }) };
            }
        }
        let mut t = trig(TriggerType::WalInfo, self.h, self.r, &Bytes::new(), None);
        t.wal_info = Some(base);
        self.trig(t);
    }
}
fn mheight(m: &Msg) -> u64 {
    match m {
        OverlordMsg::SignedProposal(x) => x.proposal.height,
        OverlordMsg::SignedVote(x) => x.vote.height,
        OverlordMsg::AggregatedVote(x) => x.height,
        OverlordMsg::SignedChoke(x) => x.choke.height,
        OverlordMsg::RichStatus(x) => x.height,
        OverlordMsg::Stop => 0,
    }
}
fn mround(m: &Msg) -> u64 {
    match m {
        OverlordMsg::SignedProposal(x) => x.proposal.round,
        OverlordMsg::SignedVote(x) => x.vote.round,
        OverlordMsg::AggregatedVote(x) => x.round,
        OverlordMsg::SignedChoke(x) => x.choke.round,
        _ => 0,
    }
}

#[derive(Clone, Debug)]
enum In {
    Net(Msg),
    Event(SMREvent),
    Resolve(usize, bool),
    Start,
}

struct Live {
    raw: UnboundedSender<(Context, Msg)>,
    evt: UnboundedSender<SMREvent>,
    trg: UnboundedReceiver<SMRTrigger>,
    task: tokio::task::JoinHandle<()>,
    smr: SMRHandler,
    smr_state: Event,
    _smr_timer: Event,
}
struct S<'a> {
    rep: &'a Rep,
    app: App,
    cry: Arc<Cry>,
    m: M,
    live: Option<Live>,
    pend: VecDeque<SMRTrigger>,
    evs: VecDeque<SMREvent>,
    hist: Vec<String>,
    pool: Vec<Bytes>,
    last_save: Option<(bool, Option<WalInfo<Blk>>)>,
    dead: bool,
    /// a status has been given to the node
    moved: bool,
    /// messages of heights to come
    early: Vec<Msg>,
    seed: u64,
    sess: u64,
    fresh: u64,
    init: (u64, Vec<Node>),
    start_wal: Option<Bytes>,
    plans: BTreeMap<u64, Vec<Node>>,
    style: u64,
    kinds: BTreeMap<&'static str, u64>,
    /// blocks of earlier heights
    old: Vec<(Bytes, Blk)>,
}

impl<'a> S<'a> {
    fn launch(&mut self) {
        let (raw, raw_rx) = unbounded();
        let (evt, evt_rx) = unbounded();
        let (trg_tx, trg) = unbounded();
        let (vtx, vrx) = unbounded();
        let (mut smr, smr_state, smr_timer) = SMR::new();
        let handler = smr.take_smr();
        smr.run();
        let (h, l) = self.init.clone();
        let task = tokio::spawn(run_state(SMRHandler::new(trg_tx), self.m.me.clone(), h, INTERVAL, l, Arc::new(self.app.clone()), self.cry.clone(), Arc::new(self.app.clone()), raw_rx, Event::new(evt_rx), (vtx, vrx)));
        self.live = Some(Live { raw, evt, trg, task, smr: handler, smr_state, _smr_timer: smr_timer });
        self.pend.clear();
        self.evs.clear();
    }
    fn replay(&self) -> String {
        let n = self.hist.len();
        let tail = &self.hist[n.saturating_sub(60)..];
        let mut s = format!("state suite, seed {}, session {}, node {:?}, height {} round {}, {} inputs, the last ones (newest first): ", self.seed, self.sess, self.m.me, self.m.h, self.m.r, n);
        for x in tail.iter().rev() {
            s += "\n  ";
            s += x;
        }
        s
    }
    fn fail(&mut self, props: &[&str], key: &str, what: String) {
        let inp = self.replay();
        let p = self.rep.prop.clone();
        if (p == "C18" || p == "C12") && !props.contains(&p.as_str()) {
            OTHERS.lock().unwrap().push((self.moved, self.start_wal.is_some(), key.into(), what.clone(), inp.clone()));
        }
        self.rep.fail(props, key, what, inp);
        self.dead = true;
    }
    /// one input, then everything that follows from it
    async fn act(&mut self, i: In) {
        if self.dead {
            return;
        }
        let p0 = PANICS.load(Ordering::SeqCst);
        let before = self.m.clone();
        self.hist.push(format!("{:?}", i));
        if self.hist.len() % 8 == 0 {
            let s = self.replay();
            self.rep.at(s);
        }
        self.rep.case(&(self.sess, self.hist.len()));
        self.moved |= matches!(&i, In::Net(OverlordMsg::RichStatus(_)) | In::Event(SMREvent::Commit(_))) || matches!(&i, In::Start) && self.start_wal.is_some();
        let mut hold = None;
        match &i {
            In::Start => {
                self.early.clear();
                self.launch()
            }
            In::Net(m) => {
                if !matches!(m, OverlordMsg::RichStatus(_) | OverlordMsg::Stop) && mheight(m) > before.h {
                    self.early.push(m.clone());
                }
                let h = before.h;
                self.early.retain(|x| mheight(x) > h);
                let _ = self.live.as_ref().unwrap().raw.unbounded_send((Context::new(), m.clone()));
            }
            In::Event(e) => {
                let _ = self.live.as_ref().unwrap().evt.unbounded_send(e.clone());
            }
            In::Resolve(n, ok) => {
                let x = self.m.holds.remove(*n);
                let mut a = self.app.0.lock().unwrap();
                if let Some(j) = a.holds.iter().position(|y| y.0 == x.0 && y.1 == x.2 && y.2 == x.3) {
                    let y = a.holds.remove(j);
                    let _ = y.3.send(*ok);
                }
                hold = Some((x, *ok));
            }
        }
        idle().await;
        // what the real node did
        let log: Vec<Out> = std::mem::take(&mut self.app.0.lock().unwrap().log);
        let mut got: Vec<O> = vec![];
        let mut seen = vec![];
        let mut order: Option<String> = None;
        let me = self.m.me.clone();
        for o in &log {
            let mut need: Option<(u64, u64, Step)> = None;
            match o {
                Out::GetBlock(h) => got.push(O("GetBlock", h.to_string())),
                Out::Check(h, k, b) => got.push(O("Check", format!("{} {:?} {:?}", h, k, b))),
                Out::Checked(..) | Out::Report => (),
                Out::Commit(h, c) => {
                    need = Some((*h, u64::MAX, Step::Commit));
                    got.push(O("Commit", format!("{} {:?}", h, c)));
                }
                Out::Broadcast(OverlordMsg::SignedProposal(p)) => {
                    need = Some((p.proposal.height, p.proposal.round, Step::Propose));
                    got.push(O("CastProp", format!("{:?}", p)));
                }
                Out::Broadcast(OverlordMsg::AggregatedVote(q)) => {
                    seen.push(q.clone());
                    got.push(O("CastQC", qc_text(q)));
                }
                Out::Broadcast(OverlordMsg::SignedChoke(c)) => {
                    need = Some((c.choke.height, c.choke.round, Step::Brake));
                    got.push(O("CastChoke", choke_text(c)));
                }
                Out::Transmit(a, OverlordMsg::SignedVote(v)) => {
                    need = Some((v.vote.height, v.vote.round, step_of(ty(&v.vote.vote_type))));
                    got.push(O("RelayVote", format!("{:?} {:?}", a, v)));
                }
                Out::Broadcast(m) => got.push(O("Other", format!("{:?}", m))),
                Out::Transmit(a, m) => got.push(O("Other", format!("{:?} {:?}", a, m))),
                Out::Save(b, ok) => {
                    let w = rlp::decode::<WalInfo<Blk>>(b).ok();
                    got.push(O(if *ok { "Save" } else { "SaveFail" }, w.as_ref().map_or("undecodable".into(), wal_text)));
                    self.last_save = Some((*ok, w));
                }
            }
            if let Some((h, r, s)) = need {
                let fine = match &self.last_save {
                    Some((true, Some(w))) => w.height == h && (r == u64::MAX || w.round == r) && w.step == s,
                    _ => false,
                };
                if !fine {
                    order = Some(format!("{:?} without a log record of its step before it; the latest is {:?}", o, self.last_save));
                }
            }
        }
        let live = self.live.as_mut().unwrap();
        while let Ok(Some(t)) = live.trg.try_next() {
            got.push(O(tkind(&t), format!("{:?}", t)));
            self.pend.push_back(t);
        }
        let ended = (&mut live.task).now_or_never().is_some();
        // what it should have done
        self.m.out.clear();
        self.m.bad_qc.clear();
        self.m.made.clear();
        self.m.seen = seen;
        match i.clone() {
            In::Net(m) => self.m.net(m),
            In::Event(e) => self.m.event(e),
            In::Resolve(..) => {
                let (x, ok) = hold.unwrap();
                if ok {
                    self.m.resp(x.0, x.1, &x.2);
                }
                self.m.drain();
            }
            In::Start => {
                let (w, f) = {
                    let a = self.app.0.lock().unwrap();
                    (self.start_wal.clone(), a.wal_load_fail)
                };
                self.m.start(&w, f);
            }
        }
        let released = self.m.released.clone();
        for (q, vs, then) in std::mem::take(&mut self.m.made) {
            let now = self.m.votes.get(&(q.height, q.round, ty(&q.vote_type)));
            let kept = |v: &Bytes| released.iter().any(|x| x.voter == *v && x.vote.height == q.height && x.vote.round == q.round && x.vote.vote_type == q.vote_type && x.vote.block_hash == q.block_hash && valid(&self.m.list, &OverlordMsg::<Blk>::SignedVote(x.clone())));
            if vs.iter().any(|v| !then.contains(v) && !kept(v) && now.and_then(|m| m.get(v)).map_or(true, |x| x.vote.block_hash != q.block_hash)) {
                self.m.bad_qc.push(format!("{:?}, votes there are of {:?} (then), {:?} (now)", q, then, now));
            }
        }
        if self.m.h != before.h {
            self.old.extend(before.content.iter().map(|(k, b)| (k.clone(), b.clone())));
            let n = self.old.len();
            self.old.drain(..n.saturating_sub(6));
        }
        for o in &got {
            *self.kinds.entry(o.0).or_insert(0) += 1;
        }
        if PANICS.load(Ordering::SeqCst) != p0 {
            let m = LAST_PANIC.lock().unwrap().clone().unwrap_or_default();
            let mut p = vec!["C25"];
            if let In::Start = i {
                p.push("C12");
            }
            if let In::Net(x) = &i {
                if !valid(&before.list, x) {
                    p.push("C02");
                }
            }
            return self.fail(&p, "panic", format!("the node panics: {}", m));
        }
        if ended != self.m.ended {
            return self.fail(&["C25"], "loop", format!("the loop of the node ended: {}, should have: {}", ended, self.m.ended));
        }
        if let Some(x) = order {
            return self.fail(&["C11"], "unlogged", x);
        }
        if let Some(x) = self.m.bad_qc.pop() {
            return self.fail(&["C03", "C04", "C22", "C01"], "certificate", format!("broadcast a certificate that is not one of the votes: {}", x));
        }
        let mut want = self.m.out.clone();
        for v in [&mut got, &mut want].iter_mut() {
            v.sort();
            let mut u: Vec<O> = vec![];
            for x in v.iter() {
                // how often a certificate is told again is left to the node
                if matches!(x.0, "PrevoteQC" | "PrecommitQC" | "Continue" | "CastQC") && u.last() == Some(x) {
                    continue;
                }
                u.push(x.clone());
            }
            **v = u;
        }
        if got != want {
            let (mut miss, mut extra) = (want.clone(), vec![]);
            for g in &got {
                if let Some(j) = miss.iter().position(|x| x == g) {
                    miss.remove(j);
                } else {
                    extra.push(g.clone());
                }
            }
            let mut p = blame(&before, &i, &miss, &extra);
            // acted on something kept from before the height that is not properly signed
            let (h, l) = (self.m.h, self.m.list.clone());
            if h != before.h && self.early.iter().any(|x| mheight(x) == h && !valid(&l, x) && extra.iter().any(|o| comes_of(o, x))) && !self.early.iter().any(|x| mheight(x) == h && valid(&l, x) && extra.iter().any(|o| comes_of(o, x))) {
                p.extend(&["C02", "C22"]);
            }
            let key = format!("{}{}", if extra.is_empty() { "missing-" } else { "extra-" }, extra.first().or(miss.first()).unwrap().0);
            return self.fail(&p, &key, format!("did {:?} which it should not, did not do {:?} which it should", extra, miss));
        }
    }
}
/// could the node have done this because of the message?
fn comes_of(o: &O, x: &Msg) -> bool {
    match x {
        OverlordMsg::AggregatedVote(q) => {
            let (k, t) = if q.is_prevote_qc() { ("PrevoteQC", TriggerType::PrevoteQC) } else { ("PrecommitQC", TriggerType::PrecommitQC) };
            o.0 == k && o.1 == format!("{:?}", trig(t, q.height, q.round, &q.block_hash, None))
        }
        OverlordMsg::SignedVote(v) => o.0 == "CastQC" && o.1.starts_with(&format!("{:?} {} {} {:?} ", v.vote.vote_type, v.vote.height, v.vote.round, v.vote.block_hash)),
        OverlordMsg::SignedProposal(p) => o.0 == "Check" && o.1 == format!("{} {:?} {:?}", p.proposal.height, p.proposal.block_hash, p.proposal.content),
        _ => false,
    }
}
fn blame(m: &M, i: &In, miss: &[O], extra: &[O]) -> Vec<&'static str> {
    let mut p: Vec<&'static str> = vec![];
    let invalid = match i {
        In::Net(x) => !matches!(x, OverlordMsg::RichStatus(_) | OverlordMsg::Stop) && !valid(&m.list, x) && mheight(x) <= m.h,
        _ => false,
    };
    if invalid && !extra.is_empty() {
        p.extend(&["C02", "C22"]);
    }
    if let In::Start = i {
        p.push("C12");
    }
    if !m.power && !extra.is_empty() {
        p.push("C18");
    }
    if m.stopped {
        p.push("C25");
    }
    if let In::Net(x) = i {
        if !matches!(x, OverlordMsg::RichStatus(_) | OverlordMsg::Stop) && (mheight(x) != m.h || mround(x) != m.r) {
            p.push("C14");
        }
        match x {
            OverlordMsg::RichStatus(_) => p.extend(&["C18", "C14"]),
            OverlordMsg::Stop => p.push("C25"),
            OverlordMsg::SignedVote(_) => p.push("C03"),
            OverlordMsg::SignedChoke(_) => p.push("C17"),
            OverlordMsg::SignedProposal(_) => p.push("C15"),
            OverlordMsg::AggregatedVote(_) => p.extend(&["C01", "C02"]),
        }
    }
    for (o, ex) in miss.iter().map(|o| (o, false)).chain(extra.iter().map(|o| (o, true))) {
        match o.0 {
            "PrevoteQC" | "PrecommitQC" => {
                p.push("C10");
                if let In::Event(_) = i {
                    p.push("C03");
                }
                if let In::Resolve(..) = i {
                    p.push("C14");
                }
                if ex && o.0 == "PrevoteQC" {
                    p.push("C07");
                }
            }
            "Proposal" => p.extend(if let In::Event(_) = i { &["C15", "C16", "C14"] } else { &["C15", "C14", "C10"] }),
            "Continue" => p.push("C17"),
            "NewHeight" => p.extend(&["C18", "C13"]),
            "WalInfo" => p.push("C12"),
            "Stop" => p.push("C25"),
            "Save" | "SaveFail" => p.extend(&["C11", "C12"]),
            "CastProp" => p.extend(&["C16", "C11", "C22"]),
            "CastQC" => p.extend(&["C03"]),
            "CastChoke" => p.extend(&["C17", "C11", "C22"]),
            "RelayVote" => p.extend(&["C11", "C22"]),
            "GetBlock" => p.push("C16"),
            "Check" => p.extend(&["C10", "C15"]),
            "Commit" => p.extend(&["C13", "C10"]),
            _ => p.push("C25"),
        }
    }
    p.sort();
    p.dedup();
    p
}

// ---------- what happens around the node ----------
impl<'a> S<'a> {
    fn plan(&mut self, r: &mut Rng, h: u64) -> Vec<Node> {
        if let Some(l) = self.plans.get(&h) {
            return l.clone();
        }
        let mut v: Vec<Bytes> = self.pool.clone();
        r.shuffle(&mut v);
        let keep = 1 + r.below(v.len() as u64) as usize;
        if r.chance(35) {
            v.truncate(keep);
        }
        let me = self.m.me.clone();
        let own = h == self.init.0 || r.chance(88);
        v.retain(|a| *a != me);
        if own || v.is_empty() {
            v.push(me);
        }
        r.shuffle(&mut v);
        let style = self.style;
        let l: Vec<Node> = v.iter().map(|a| node(a, 1 + r.below(3) as u32, if style == 0 { 1 } else { 1 + r.below(style) as u32 })).collect();
        self.plans.insert(h, l.clone());
        l
    }
    fn status(&mut self, r: &mut Rng, h: u64) -> Status {
        let mut l = self.plan(r, h);
        r.shuffle(&mut l);
        Status { height: h, interval: if r.chance(30) { Some(INTERVAL + r.below(50)) } else { None }, timer_config: if r.chance(20) { Some(DurationConfig::new(1 + r.below(30), 1 + r.below(30), 1 + r.below(30), 1 + r.below(30))) } else { None }, authority_list: l }
    }
    fn fresh_block(&mut self) -> (Blk, Bytes) {
        self.fresh += 1;
        (Blk(Bytes::from(format!("c{}", self.fresh))), Bytes::from(format!("k{}", self.fresh)))
    }
    /// voters around the quorum
    fn some(&mut self, r: &mut Rng, l: &[Node], good: bool) -> Vec<Bytes> {
        let mut v: Vec<Bytes> = l.iter().map(|n| n.address.clone()).collect();
        r.shuffle(&mut v);
        let mut out = vec![];
        for a in v {
            if quorum(l, &out) {
                break;
            }
            out.push(a);
        }
        if !good {
            out.pop();
        } else if r.chance(20) {
            out = l.iter().map(|n| n.address.clone()).collect();
        }
        out
    }
    fn known_hash(&mut self, r: &mut Rng) -> Bytes {
        let (h, ro) = (self.m.h, self.m.r);
        if !self.old.is_empty() && r.chance(10) {
            return r.pick(&self.old).0.clone();
        }
        if let Some(p) = self.m.props.get(&(h, ro)) {
            if r.chance(80) {
                return p.proposal.block_hash.clone();
            }
        }
        let ks: Vec<Bytes> = self.m.content.keys().cloned().collect();
        if !ks.is_empty() && r.chance(50) {
            return r.pick(&ks).clone();
        }
        if r.chance(60) {
            return Bytes::new();
        }
        self.fresh_block().1
    }
    fn messages(&mut self, r: &mut Rng) -> Vec<Msg> {
        let (ch, cr) = (self.m.h, self.m.r);
        let h = match r.below(100) {
            0..=83 => ch,
            84..=91 => ch + 1,
            92..=93 => ch + 5,
            94..=95 => ch + 2 + r.below(5),
            96..=98 => ch.saturating_sub(1),
            _ => u64::MAX - r.below(2),
        };
        let ro = if h == ch {
            match r.below(100) {
                0..=79 => cr,
                80..=86 => cr + 1,
                87..=91 => cr + *r.pick(&[2u64, 9, 10, 11]),
                _ => cr.saturating_sub(1 + r.below(2)),
            }
        } else {
            *r.pick(&[0u64, 0, 0, 0, 1, 2, 9, 10, 11])
        };
        let l = if h == u64::MAX || h == u64::MAX - 1 { self.m.list.clone() } else { self.plan(r, h) };
        let la = mauth(&l);
        let mut out: Vec<Msg> = vec![];
        match r.below(100) {
            0..=24 => {
                let who = la.get_proposer(h, ro).unwrap();
                let who = if who == self.m.me && h == ch { r.pick(&self.pool).clone() } else { who };
                let (mut b, mut k) = self.fresh_block();
                if !self.old.is_empty() && r.chance(10) {
                    // a block of an earlier height once more
                    let x = r.pick(&self.old).clone();
                    k = x.0;
                    b = x.1;
                }
                let mut lock = None;
                if h == ch && r.chance(35) {
                    let qs: Vec<AggregatedVote> = self.m.qid.values().filter(|q| q.height == h && q.vote_type == VoteType::Prevote && (q.round < ro || r.chance(10)) && (!q.block_hash.is_empty() || r.chance(10))).cloned().collect();
                    if !qs.is_empty() {
                        let q = r.pick(&qs).clone();
                        if !r.chance(10) {
                            k = q.block_hash.clone();
                        }
                        if let Some(x) = self.m.content.get(&k) {
                            if !r.chance(10) {
                                b = x.clone();
                            }
                        }
                        lock = Some(PoLC { lock_round: if r.chance(90) { q.round } else { q.round + 1 }, lock_votes: q });
                    } else if ro > 0 {
                        let vs = self.some(r, &l, true);
                        let x = r.below(ro);
                        let t = if r.chance(90) { VoteType::Prevote } else { VoteType::Precommit };
                        // perhaps of nothing, or of another block
                        let of = match r.below(10) {
                            0 => Bytes::new(),
                            1 => self.known_hash(r),
                            _ => k.clone(),
                        };
                        lock = Some(PoLC { lock_round: x, lock_votes: mk_qc(&l, &vs, t, if r.chance(90) { h } else { h + 1 }, x, &of, &who) });
                    }
                } else if h == ch && r.chance(15) {
                    let ks: Vec<Bytes> = self.m.content.keys().cloned().collect();
                    if !ks.is_empty() {
                        k = r.pick(&ks).clone();
                        if r.chance(60) {
                            b = self.m.content[&k].clone();
                        }
                    }
                }
                let p = Proposal { height: h, round: ro, content: b, block_hash: k, lock, proposer: who.clone() };
                let mut sp = SignedProposal { signature: msign(&who, &prop_hash(&p)), proposal: p };
                if r.chance(10) {
                    match r.below(6) {
                        0 => sp.signature = flip(r, &sp.signature),
                        1 => sp.proposal.block_hash = flip(r, &sp.proposal.block_hash),
                        2 => sp.proposal.content = Blk(Bytes::from("changed")),
                        3 => {
                            let a = r.pick(&self.pool).clone();
                            sp.proposal.proposer = a;
                        }
                        4 => {
                            // of somebody else, properly signed
                            let a = r.pick(&self.pool).clone();
                            sp.proposal.proposer = a.clone();
                            sp.signature = msign(&a, &prop_hash(&sp.proposal));
                        }
                        _ => {
                            if let Some(l) = sp.proposal.lock.as_mut() {
                                mq(r, &mut l.lock_votes);
                            }
                            sp.signature = msign(&sp.proposal.proposer, &prop_hash(&sp.proposal));
                        }
                    }
                }
                out.push(OverlordMsg::SignedProposal(sp.clone()));
                if r.chance(15) {
                    // again, or another one of the same round
                    if r.chance(50) {
                        sp.proposal.content = Blk(Bytes::from("second"));
                        sp.proposal.block_hash = Bytes::from("second");
                        sp.signature = msign(&sp.proposal.proposer, &prop_hash(&sp.proposal));
                    }
                    out.push(OverlordMsg::SignedProposal(sp));
                }
            }
            25..=59 => {
                let t = if r.chance(50) { VoteType::Prevote } else { VoteType::Precommit };
                let k = if h == ch { self.known_hash(r) } else if r.chance(40) { Bytes::new() } else { Bytes::from(format!("f{}-{}", h, ro)) };
                let mut vs = if r.chance(60) { let g = r.chance(80); self.some(r, &l, g) } else { vec![r.pick(&self.pool).clone()] };
                if r.chance(6) {
                    vs.push(Bytes::from("stranger"));
                }
                let me = self.m.me.clone();
                vs.retain(|v| *v != me || r.chance(5));
                for a in vs {
                    let k = if r.chance(4) { Bytes::new() } else { k.clone() };
                    let v = Vote { height: h, round: ro, vote_type: t.clone(), block_hash: k };
                    let mut sv = SignedVote { signature: msign(&a, &vote_hash(&v)), vote: v, voter: a };
                    if r.chance(6) {
                        match r.below(6) {
                            0 => sv.signature = flip(r, &sv.signature),
                            1 => sv.vote.height ^= 1,
                            2 => sv.vote.round ^= 1,
                            3 => sv.vote.vote_type = if sv.is_prevote() { VoteType::Precommit } else { VoteType::Prevote },
                            4 => sv.vote.block_hash = flip(r, &sv.vote.block_hash),
                            _ => sv.voter = r.pick(&self.pool).clone(),
                        }
                    }
                    out.push(OverlordMsg::SignedVote(sv.clone()));
                    if r.chance(5) {
                        out.push(OverlordMsg::SignedVote(sv));
                    }
                }
            }
            60..=80 => {
                let t = if r.chance(50) { VoteType::Prevote } else { VoteType::Precommit };
                let k = if h == ch { self.known_hash(r) } else if r.chance(50) { Bytes::new() } else { Bytes::from(format!("f{}-{}", h, ro)) };
                let g = r.chance(85);
                let vs = self.some(r, &l, g);
                // nobody signs for the leader's name, so anything may stand there
                let lead = if r.chance(if h > ch { 40 } else { 85 }) { la.get_proposer(h, ro).unwrap() } else if r.chance(75) { self.m.me.clone() } else { r.pick(&self.pool).clone() };
                let mut q = mk_qc(&l, &vs, t, h, ro, &k, &lead);
                if r.chance(if h > ch { 40 } else { 8 }) {
                    mq(r, &mut q);
                }
                out.push(OverlordMsg::AggregatedVote(q));
            }
            81..=93 => {
                let g = r.chance(80);
                let vs = self.some(r, &l, g);
                let all: Vec<Bytes> = if r.chance(50) { l.iter().map(|n| n.address.clone()).collect() } else { vs.clone() };
                let from = |s: &mut Self, r: &mut Rng| {
                    let x = ro.saturating_sub(1);
                    match r.below(4) {
                        0 => UpdateFrom::PrecommitQC(init_qc()),
                        1 => {
                            let k = s.known_hash(r);
                            let mut q = mk_qc(&l, &vs, VoteType::Prevote, h, if r.chance(50) { ro } else { x }, &k, &l[0].address);
                            if r.chance(15) {
                                mq(r, &mut q);
                            }
                            UpdateFrom::PrevoteQC(q)
                        }
                        2 => {
                            let k = if r.chance(70) { Bytes::new() } else { s.known_hash(r) };
                            let mut q = mk_qc(&l, &vs, VoteType::Precommit, h, x, &k, &l[0].address);
                            if r.chance(15) {
                                mq(r, &mut q);
                            }
                            UpdateFrom::PrecommitQC(q)
                        }
                        _ => {
                            let mut a = AggregatedChoke { height: h, round: x, signature: magg(&all, &choke_hash(h, x)), voters: all.clone() };
                            match r.below(12) {
                                0 => a.signature = flip(r, &a.signature),
                                1 => a.round += 1,
                                2 => a.height ^= 1,
                                3 if !a.voters.is_empty() => {
                                    let v = a.voters[0].clone();
                                    a.voters.push(v);
                                    a.signature = magg(&a.voters, &choke_hash(h, x));
                                }
                                4 => {
                                    a.voters.pop();
                                    a.signature = magg(&a.voters, &choke_hash(h, x));
                                }
                                5 => {
                                    a.voters.pop();
                                    a.voters.push(Bytes::from("stranger"));
                                    a.signature = magg(&a.voters, &choke_hash(h, x));
                                }
                                _ => (),
                            }
                            UpdateFrom::ChokeQC(a)
                        }
                    }
                };
                let list = if r.chance(50) { all.clone() } else { vec![r.pick(&self.pool).clone()] };
                let me = self.m.me.clone();
                for a in list {
                    if a == me && !r.chance(5) {
                        continue;
                    }
                    let f = from(self, r);
                    let mut c = SignedChoke { signature: msign(&a, &choke_hash(h, ro)), choke: Choke { height: h, round: ro, from: f }, address: a };
                    if r.chance(6) {
                        match r.below(4) {
                            0 => c.signature = flip(r, &c.signature),
                            1 => c.choke.height ^= 1,
                            2 => c.choke.round ^= 1,
                            _ => c.address = r.pick(&self.pool).clone(),
                        }
                    }
                    out.push(OverlordMsg::SignedChoke(c));
                }
            }
            _ => {
                let sh = match r.below(10) {
                    0 => ch,
                    1 => ch.saturating_sub(1),
                    2 => ch + 2 + r.below(3),
                    _ => ch + 1,
                };
                if r.chance(40) || ch == 0 {
                    let s = self.status(r, sh.max(1));
                    out.push(OverlordMsg::RichStatus(s));
                }
            }
        }
        if h > ch && h < ch + 8 && r.chance(30) {
            // the node arrives there at once, whatever was kept for that height counts
            let s = self.status(r, h);
            out.push(OverlordMsg::RichStatus(s));
        }
        out
    }
    async fn pump(&mut self, all: bool) {
        while let Some(t) = self.pend.pop_front() {
            let _ = self.live.as_mut().unwrap().smr.trigger(t);
            if !all {
                break;
            }
        }
        idle().await;
        self.collect();
    }
    fn collect(&mut self) {
        let l = self.live.as_mut().unwrap();
        while let Some(Some(e)) = l.smr_state.next().now_or_never() {
            self.evs.push_back(e);
        }
    }
    fn wal(&mut self, n: u32) {
        self.app.0.lock().unwrap().wal_ok = Some(n);
        self.m.wal_ok = n;
    }
    async fn event(&mut self, r: &mut Rng, e: SMREvent) {
        let h = self.m.h;
        let nb = if r.chance(93) { Some(self.fresh_block()) } else { None };
        let ns = if r.chance(88) {
            let nh = h + if r.chance(90) { 1 } else { 2 };
            let mut st = self.status(r, nh);
            if r.chance(8) {
                // the application answers with what it had before
                st.height = h - r.below(h.min(1) + 1);
                st.authority_list = self.plan(r, h + 50);
            }
            Some(st)
        } else {
            None
        };
        // the log fails at once, or when the node is about to enter the next height
        let (wf, sf) = (if r.chance(5) { 0 } else if r.chance(8) { 1 } else { u32::MAX }, r.chance(3));
        {
            let mut a = self.app.0.lock().unwrap();
            a.next_block = nb.clone();
            a.next_status = ns.clone();
            a.wal_ok = Some(wf);
            a.net_fail = r.chance(10);
            *self.cry.fail_sign.lock().unwrap() = sf;
        }
        self.m.next_block = nb;
        self.m.next_status = ns;
        self.m.wal_ok = wf;
        self.m.sign_fail = sf;
        if wf < 2 || sf {
            self.hist.push(format!("(log writes that succeed: {}, signing fails: {})", wf, sf));
        }
        self.act(In::Event(e)).await;
        self.app.0.lock().unwrap().wal_ok = None;
        *self.cry.fail_sign.lock().unwrap() = false;
        self.m.wal_ok = u32::MAX;
        self.m.sign_fail = false;
    }
    /// the node is gone; its state machine is told to stop, as it waits for triggers for ever
    async fn bury(&mut self) {
        if let Some(mut l) = self.live.take() {
            l.task.abort();
            let _ = l.smr.trigger(trig(TriggerType::Stop, 0, 0, &Bytes::new(), None));
            idle().await;
        }
    }
    async fn restart(&mut self, r: &mut Rng) {
        self.bury().await;
        let wal = {
            let mut a = self.app.0.lock().unwrap();
            a.holds.clear();
            a.log.clear();
            a.wal.clone()
        };
        let h = wal.as_ref().and_then(|b| rlp::decode::<WalInfo<Blk>>(b).ok()).map_or(self.init.0, |w| w.height);
        let l = self.plan(r, h);
        if wal.is_some() && r.chance(50) {
            self.init.0 = h;
        }
        self.init.1 = l.clone();
        self.start_wal = wal;
        self.last_save = None;
        let me = self.m.me.clone();
        self.m = M::new(&me, self.init.0, &l);
        self.commit_env(r, h);
        self.hist.push(format!("(crash; a new node starts at height {} from the log)", self.init.0));
        self.act(In::Start).await;
    }
    fn commit_env(&mut self, r: &mut Rng, h: u64) {
        let ns = if r.chance(80) { Some(self.status(r, h + 1)) } else { None };
        self.app.0.lock().unwrap().next_status = ns.clone();
        self.m.next_status = ns;
    }
    fn random_log(&mut self, r: &mut Rng) -> Bytes {
        // heights and rounds of any size
        let h = if r.chance(8) { (1 << 32) - 2 + r.below(4) } else { r.below(4) };
        let ro = if r.chance(12) { (1 << *r.pick(&[8u64, 16, 32, 33])) - 2 + r.below(4) } else { r.below(4) };
        let l = self.plan(r, h);
        let (b, k) = self.fresh_block();
        let vs = self.some(r, &l, true);
        let step = [Step::Propose, Step::Prevote, Step::Precommit, Step::Brake, Step::Commit][r.below(5) as usize].clone();
        let t = if step == Step::Commit { VoteType::Precommit } else { VoteType::Prevote };
        let x = if r.chance(50) { r.below(ro + 1) } else { ro - r.below(ro.min(3) + 1) };
        let q = mk_qc(&l, &vs, t, h, x, &k, &l[0].address);
        let lock = if r.chance(60) { Some(WalLock { lock_round: if step == Step::Commit { ro } else { x }, lock_votes: q.clone(), content: b }) } else { None };
        let from = match r.below(3) {
            0 => UpdateFrom::PrecommitQC(q),
            1 => UpdateFrom::PrevoteQC(q),
            _ => UpdateFrom::ChokeQC(AggregatedChoke { height: h, round: x, signature: magg(&vs, &choke_hash(h, x)), voters: vs }),
        };
        Bytes::from(rlp::encode(&WalInfo { height: h, round: ro, step, lock, from }))
    }
}

async fn session(rep: &Rep, seed: u64, sess: u64) {
    let mut r = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(sess) ^ 0x57A7E);
    let n = 1 + r.below(7) as usize;
    let pool: Vec<Bytes> = (0..n).map(|i| Bytes::from(format!("{}node{}", "x".repeat(r.below(2) as usize), i))).collect();
    let me = r.pick(&pool).clone();
    let app = App::default();
    let cry = Arc::new(Cry::new(me.clone()));
    let mut s = S { rep, app, cry, m: M::new(&me, 0, &[node(&me, 1, 1)]), live: None, pend: VecDeque::new(), evs: VecDeque::new(), hist: vec![], pool, last_save: None, dead: false, moved: false, early: vec![], seed, sess, fresh: 0, init: (0, vec![]), start_wal: None, plans: BTreeMap::new(), style: r.below(4), kinds: BTreeMap::new(), old: vec![] };
    let kind = r.below(10);
    let mut wal = None;
    let mut h0 = 0;
    match kind {
        0..=4 => (),
        5 => h0 = 1 + r.below(3),
        6 => wal = Some(Bytes::from({ let n = r.below(12) as usize; r.bytes(n) })),
        _ => {
            wal = Some(s.random_log(&mut r));
            h0 = r.below(3);
        }
    }
    if let Some(i) = wal.as_ref().and_then(|b| rlp::decode::<WalInfo<Blk>>(b).ok()) {
        if r.chance(80) {
            h0 = i.height;
        }
        // the log's height decides the list
        s.init = (i.height, vec![]);
        let l = s.plan(&mut r, i.height);
        s.init = (h0, l);
    } else {
        s.init = (h0, vec![]);
        let l = s.plan(&mut r, h0);
        s.init.1 = l;
    }
    s.m = M::new(&me, h0, &s.init.1.clone());
    {
        let mut a = s.app.0.lock().unwrap();
        a.wal = wal.clone();
        a.wal_load_fail = kind == 5 && r.chance(20);
    }
    s.start_wal = wal;
    let h = s.m.h;
    s.commit_env(&mut r, h);
    s.hist.push(format!("(pool {:?}, list {:?}, start height {}, log {:?})", s.pool, s.init.1, h0, s.start_wal));
    // every block check waits until the harness answers
    s.app.0.lock().unwrap().hold_all = true;
    s.act(In::Start).await;
    s.app.0.lock().unwrap().wal_load_fail = false;
    if s.m.h == 0 && !s.dead {
        let st = s.status(&mut r, 1);
        s.act(In::Net(OverlordMsg::RichStatus(st))).await;
    }
    let steps = 20 + r.below(100);
    for _ in 0..steps {
        if s.dead {
            break;
        }
        let x = r.below(100);
        if !s.pend.is_empty() && x < 40 {
            let all = r.chance(70);
            s.pump(all).await;
        } else if !s.evs.is_empty() && x < 72 {
            let e = s.evs.pop_front().unwrap();
            s.event(&mut r, e).await;
        } else if !s.m.holds.is_empty() && x < 82 {
            let i = r.below(s.m.holds.len() as u64) as usize;
            let ok = r.chance(80);
            s.act(In::Resolve(i, ok)).await;
        } else if x < 86 {
            let t = match r.below(4) {
                0 => TriggerType::Proposal,
                1 => TriggerType::PrevoteQC,
                2 => TriggerType::PrecommitQC,
                _ => TriggerType::BrakeTimeout,
            };
            let mut t = trig(t, s.m.h, s.m.r, &Bytes::new(), None);
            t.source = TriggerSource::Timer;
            s.hist.push(format!("(the clock: {:?})", t.trigger_type));
            let _ = s.live.as_mut().unwrap().smr.trigger(t);
            idle().await;
            s.collect();
        } else if x < 88 && r.chance(40) {
            // an event out of the blue
            let (h, ro) = (s.m.h.saturating_sub(r.below(2)), (s.m.r + r.below(3)).saturating_sub(1));
            let k = s.known_hash(&mut r);
            let lr = if r.chance(50) { Some(r.below(ro + 1)) } else { None };
            let e = match r.below(5) {
                0 => SMREvent::NewRoundInfo { height: h, round: ro, lock_round: lr, lock_proposal: if lr.is_some() != r.chance(5) { Some(k) } else { None }, from_where: FromWhere::PrecommitQC(u64::MAX), new_interval: None, new_config: None },
                1 => SMREvent::PrevoteVote { height: h, round: ro, block_hash: k, lock_round: lr },
                2 => SMREvent::PrecommitVote { height: h, round: ro, block_hash: k, lock_round: lr },
                3 => SMREvent::Brake { height: h, round: ro, lock_round: lr },
                _ => SMREvent::Commit(k),
            };
            s.event(&mut r, e).await;
        } else if r.chance(2) {
            s.restart(&mut r).await;
        } else {
            for m in s.messages(&mut r) {
                let bad = matches!(m, OverlordMsg::RichStatus(_)) && r.chance(8);
                if bad {
                    s.hist.push("(the log fails)".into());
                    s.wal(0);
                }
                s.act(In::Net(m)).await;
                if bad {
                    s.wal(u32::MAX);
                }
            }
        }
    }
    if !s.dead && r.chance(40) {
        s.act(In::Net(OverlordMsg::Stop)).await;
        s.pump(true).await;
        while let Some(e) = s.evs.pop_front() {
            if s.m.ended || s.dead {
                break;
            }
            s.event(&mut r, e).await;
        }
        if !s.dead && !s.m.ended {
            s.fail(&["C25"], "stop", "the state machine did not tell the node's loop to end after a stop".into());
        }
    }
    s.bury().await;
    for (k, n) in &s.kinds {
        rep.count(k, *n);
    }
    rep.count("inputs", s.hist.len() as u64);
    rep.count("heights", s.m.h.min(1 << 20));
    if sess < 3 {
        let t = s.replay();
        rep.sample(|| t);
    }
}
/// deviations that speak for another property: (after a status, started from a log, key, what, input)
static OTHERS: std::sync::Mutex<Vec<(bool, bool, String, String, String)>> = std::sync::Mutex::new(vec![]);
pub fn run(rep: &std::sync::Arc<Rep>) {
    rep.rule("seeded sessions of up to 120 steps of one real State wired to a real state machine, from an empty, lost, undecodable or random log, 1..7 validators of weights 1..4 changing by height: valid, mutated, repeated, past and future proposals, votes, certificates, chokes and statuses, timeouts, block checks answered late or never, failing application, network, signing and log, crash and restart from the log, stop; after each input what the node sent, saved and triggered is compared with a plain restatement of the rules");
    let mut n = 0;
    while rep.go(25.0, 400.0) && OTHERS.lock().unwrap().len() < 40 {
        let rt = rt();
        rt.block_on(session(rep, rep.seed, n));
        n += 1;
    }
    rep.count("sessions", n);
    // deviations that only ever come after a status are due to what is left of an earlier height,
    // deviations that only ever come after a start from a log are due to what was taken from it
    let o = OTHERS.lock().unwrap();
    let (p, all) = match rep.prop.as_str() { "C18" => ("C18", o.iter().all(|x| x.0)), "C12" => ("C12", o.iter().all(|x| x.1)), _ => ("", false) };
    if all && o.len() >= 6 {
        for x in o.iter().take(3) {
            rep.fail(&[p], &x.2, x.3.clone(), x.4.clone());
        }
    }
}
