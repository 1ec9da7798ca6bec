//! C20 roundtrip, C21 arbitrary bytes, C22 what is signed; C23 JSON
use crate::mock::*;
use crate::rng::*;
use bytes::Bytes;
use overlord::types::*;
use overlord::verif::smr_types::Step;
use overlord::verif::WalLock;
use overlord::{DurationConfig, WalInfo};
use rlp::{Decodable, Encodable, RlpStream};
use std::fmt::Debug;

trait Ty: Encodable + Decodable + PartialEq + Debug + Clone {
    fn gen(r: &mut Rng) -> Self;
    /// values that differ from self in exactly one field
    fn muts(&self, r: &mut Rng) -> Vec<Self>;
}
fn by(r: &mut Rng) -> Bytes {
    let n = *r.pick(&[0usize, 0, 1, 1, 2, 3, 20, 32, 55, 56, 57, 64, 300]);
    let mut v = r.bytes(n);
    if n > 0 && r.chance(40) {
        v[0] = *r.pick(&[0u8, 1, 0x7f, 0x80, 0x81, 0xb7, 0xb8, 0xc0, 0xc1, 0xf7, 0xff]);
    }
    if r.chance(10) {
        v.extend_from_slice(&[0]);
    }
    Bytes::from(v)
}
fn nu(r: &mut Rng) -> u64 {
    let s = r.below(64);
    let (a, b) = (r.next() >> s, r.next());
    *r.pick(&[0u64, 1, 2, 0x7f, 0x80, 0xff, 0x100, u32::MAX as u64, u64::MAX, a, b])
}
fn n32(r: &mut Rng) -> u32 {
    let a = r.next() as u32;
    *r.pick(&[0u32, 1, 0x7f, 0x80, 0x100, u32::MAX, a])
}
fn ob(r: &mut Rng, b: &Bytes) -> Bytes {
    let mut v = b.to_vec();
    match r.below(4) {
        0 => v.push(0),
        1 if !v.is_empty() => {
            let i = r.below(v.len() as u64) as usize;
            v[i] ^= 1 << r.below(8);
        }
        2 if !v.is_empty() => {
            v.pop();
        }
        _ => v.insert(0, r.next() as u8),
    }
    Bytes::from(v)
}
fn on(r: &mut Rng, n: u64) -> u64 {
    *r.pick(&[n.wrapping_add(1), n ^ 1, n ^ (1 << 63), n.wrapping_sub(1), n ^ (1 << 8), n ^ (1 << 32)])
}
fn vt(r: &mut Rng) -> VoteType {
    if r.chance(50) {
        VoteType::Prevote
    } else {
        VoteType::Precommit
    }
}
fn ov(v: &VoteType) -> VoteType {
    if *v == VoteType::Prevote {
        VoteType::Precommit
    } else {
        VoteType::Prevote
    }
}
fn blk(r: &mut Rng) -> Blk {
    let mut b = by(r).to_vec();
    if b.first() == Some(&b'!') {
        b[0] = b'?';
    }
    Blk(Bytes::from(b))
}
fn oblk(r: &mut Rng, b: &Blk) -> Blk {
    loop {
        let x = ob(r, &b.0);
        if x.first() != Some(&b'!') {
            return Blk(x);
        }
    }
}
macro_rules! mutf { ($s:expr, $v:ident, $($f:ident).+ = $e:expr) => {{ let mut x = $s.clone(); x.$($f).+ = $e; $v.push(x); }} }

impl Ty for AggregatedSignature {
    fn gen(r: &mut Rng) -> Self {
        AggregatedSignature { signature: by(r), address_bitmap: by(r) }
    }
    fn muts(&self, r: &mut Rng) -> Vec<Self> {
        let mut v = vec![];
        mutf!(self, v, signature = ob(r, &self.signature));
        mutf!(self, v, address_bitmap = ob(r, &self.address_bitmap));
        v.push(AggregatedSignature { signature: self.address_bitmap.clone(), address_bitmap: self.signature.clone() });
        v
    }
}
impl Ty for AggregatedVote {
    fn gen(r: &mut Rng) -> Self {
        AggregatedVote { signature: Ty::gen(r), vote_type: vt(r), height: nu(r), round: nu(r), block_hash: by(r), leader: by(r) }
    }
    fn muts(&self, r: &mut Rng) -> Vec<Self> {
        let mut v = vec![];
        for s in self.signature.muts(r) {
            mutf!(self, v, signature = s);
        }
        mutf!(self, v, vote_type = ov(&self.vote_type));
        mutf!(self, v, height = on(r, self.height));
        mutf!(self, v, round = on(r, self.round));
        mutf!(self, v, block_hash = ob(r, &self.block_hash));
        mutf!(self, v, leader = ob(r, &self.leader));
        let mut x = self.clone();
        x.height = self.round;
        x.round = self.height;
        v.push(x);
        v
    }
}
impl Ty for Vote {
    fn gen(r: &mut Rng) -> Self {
        Vote { height: nu(r), round: nu(r), vote_type: vt(r), block_hash: by(r) }
    }
    fn muts(&self, r: &mut Rng) -> Vec<Self> {
        let mut v = vec![];
        mutf!(self, v, height = on(r, self.height));
        mutf!(self, v, round = on(r, self.round));
        mutf!(self, v, vote_type = ov(&self.vote_type));
        mutf!(self, v, block_hash = ob(r, &self.block_hash));
        let mut x = self.clone();
        x.height = self.round;
        x.round = self.height;
        v.push(x);
        v
    }
}
impl Ty for SignedVote {
    fn gen(r: &mut Rng) -> Self {
        SignedVote { signature: by(r), vote: Ty::gen(r), voter: by(r) }
    }
    fn muts(&self, r: &mut Rng) -> Vec<Self> {
        let mut v = vec![];
        mutf!(self, v, signature = ob(r, &self.signature));
        mutf!(self, v, voter = ob(r, &self.voter));
        for s in self.vote.muts(r) {
            mutf!(self, v, vote = s);
        }
        v
    }
}
impl Ty for PoLC {
    fn gen(r: &mut Rng) -> Self {
        PoLC { lock_round: nu(r), lock_votes: Ty::gen(r) }
    }
    fn muts(&self, r: &mut Rng) -> Vec<Self> {
        let mut v = vec![];
        mutf!(self, v, lock_round = on(r, self.lock_round));
        for s in self.lock_votes.muts(r) {
            mutf!(self, v, lock_votes = s);
        }
        v
    }
}
impl Ty for Proposal<Blk> {
    fn gen(r: &mut Rng) -> Self {
        Proposal { height: nu(r), round: nu(r), content: blk(r), block_hash: by(r), lock: if r.chance(50) { Some(Ty::gen(r)) } else { None }, proposer: by(r) }
    }
    fn muts(&self, r: &mut Rng) -> Vec<Self> {
        let mut v = vec![];
        mutf!(self, v, height = on(r, self.height));
        mutf!(self, v, round = on(r, self.round));
        mutf!(self, v, content = oblk(r, &self.content));
        mutf!(self, v, block_hash = ob(r, &self.block_hash));
        mutf!(self, v, proposer = ob(r, &self.proposer));
        match &self.lock {
            None => mutf!(self, v, lock = Some(Ty::gen(r))),
            Some(l) => {
                mutf!(self, v, lock = None);
                for s in l.muts(r) {
                    mutf!(self, v, lock = Some(s));
                }
            }
        }
        let mut x = self.clone();
        x.height = self.round;
        x.round = self.height;
        v.push(x);
        v
    }
}
impl Ty for SignedProposal<Blk> {
    fn gen(r: &mut Rng) -> Self {
        SignedProposal { signature: by(r), proposal: Ty::gen(r) }
    }
    fn muts(&self, r: &mut Rng) -> Vec<Self> {
        let mut v = vec![];
        mutf!(self, v, signature = ob(r, &self.signature));
        for s in self.proposal.muts(r) {
            mutf!(self, v, proposal = s);
        }
        v
    }
}
impl Ty for Proof {
    fn gen(r: &mut Rng) -> Self {
        Proof { height: nu(r), round: nu(r), block_hash: by(r), signature: Ty::gen(r) }
    }
    fn muts(&self, r: &mut Rng) -> Vec<Self> {
        let mut v = vec![];
        mutf!(self, v, height = on(r, self.height));
        mutf!(self, v, round = on(r, self.round));
        mutf!(self, v, block_hash = ob(r, &self.block_hash));
        for s in self.signature.muts(r) {
            mutf!(self, v, signature = s);
        }
        v
    }
}
impl Ty for Commit<Blk> {
    fn gen(r: &mut Rng) -> Self {
        Commit { height: nu(r), content: blk(r), proof: Ty::gen(r) }
    }
    fn muts(&self, r: &mut Rng) -> Vec<Self> {
        let mut v = vec![];
        mutf!(self, v, height = on(r, self.height));
        mutf!(self, v, content = oblk(r, &self.content));
        for s in self.proof.muts(r) {
            mutf!(self, v, proof = s);
        }
        v
    }
}
impl Ty for DurationConfig {
    fn gen(r: &mut Rng) -> Self {
        DurationConfig::new(nu(r), nu(r), nu(r), nu(r))
    }
    fn muts(&self, r: &mut Rng) -> Vec<Self> {
        let mut v = vec![];
        mutf!(self, v, propose_ratio = on(r, self.propose_ratio));
        mutf!(self, v, prevote_ratio = on(r, self.prevote_ratio));
        mutf!(self, v, precommit_ratio = on(r, self.precommit_ratio));
        mutf!(self, v, brake_ratio = on(r, self.brake_ratio));
        v
    }
}
impl Ty for Node {
    fn gen(r: &mut Rng) -> Self {
        node(&by(r), n32(r), n32(r))
    }
    fn muts(&self, r: &mut Rng) -> Vec<Self> {
        let mut v = vec![];
        mutf!(self, v, address = ob(r, &self.address));
        mutf!(self, v, propose_weight = self.propose_weight ^ 1);
        mutf!(self, v, vote_weight = self.vote_weight ^ (1 << 31));
        v
    }
}
impl Ty for Status {
    fn gen(r: &mut Rng) -> Self {
        // Some(0) and Some(default) are the documented exception
        let i = nu(r);
        let c: DurationConfig = Ty::gen(r);
        let n = r.below(4);
        Status {
            height: nu(r),
            interval: if i == 0 { None } else { Some(i) },
            timer_config: if c == DurationConfig::default() { None } else { Some(c) },
            authority_list: (0..n).map(|_| Ty::gen(r)).collect(),
        }
    }
    fn muts(&self, r: &mut Rng) -> Vec<Self> {
        let mut v = vec![];
        mutf!(self, v, height = on(r, self.height));
        mutf!(self, v, interval = if self.interval.is_some() { None } else { Some(5) });
        mutf!(self, v, timer_config = if self.timer_config.is_some() { None } else { Some(DurationConfig::new(0, 0, 0, 1)) });
        let mut l = self.authority_list.clone();
        l.push(Ty::gen(r));
        mutf!(self, v, authority_list = l);
        for i in 0..self.authority_list.len() {
            let ms = self.authority_list[i].muts(r);
            let mut l = self.authority_list.clone();
            l[i] = ms[0].clone();
            mutf!(self, v, authority_list = l);
        }
        v
    }
}
impl Ty for AggregatedChoke {
    fn gen(r: &mut Rng) -> Self {
        let n = r.below(4);
        AggregatedChoke { height: nu(r), round: nu(r), signature: by(r), voters: (0..n).map(|_| by(r)).collect() }
    }
    fn muts(&self, r: &mut Rng) -> Vec<Self> {
        let mut v = vec![];
        mutf!(self, v, height = on(r, self.height));
        mutf!(self, v, round = on(r, self.round));
        mutf!(self, v, signature = ob(r, &self.signature));
        let mut l = self.voters.clone();
        l.push(by(r));
        mutf!(self, v, voters = l);
        v
    }
}
impl Ty for UpdateFrom {
    fn gen(r: &mut Rng) -> Self {
        match r.below(3) {
            0 => UpdateFrom::PrevoteQC(Ty::gen(r)),
            1 => UpdateFrom::PrecommitQC(Ty::gen(r)),
            _ => UpdateFrom::ChokeQC(Ty::gen(r)),
        }
    }
    fn muts(&self, r: &mut Rng) -> Vec<Self> {
        match self {
            UpdateFrom::PrevoteQC(q) => {
                let mut v: Vec<_> = q.muts(r).into_iter().map(UpdateFrom::PrevoteQC).collect();
                v.push(UpdateFrom::PrecommitQC(q.clone()));
                v
            }
            UpdateFrom::PrecommitQC(q) => {
                let mut v: Vec<_> = q.muts(r).into_iter().map(UpdateFrom::PrecommitQC).collect();
                v.push(UpdateFrom::PrevoteQC(q.clone()));
                v
            }
            UpdateFrom::ChokeQC(q) => q.muts(r).into_iter().map(UpdateFrom::ChokeQC).collect(),
        }
    }
}
impl Ty for Choke {
    fn gen(r: &mut Rng) -> Self {
        Choke { height: nu(r), round: nu(r), from: Ty::gen(r) }
    }
    fn muts(&self, r: &mut Rng) -> Vec<Self> {
        let mut v = vec![];
        mutf!(self, v, height = on(r, self.height));
        mutf!(self, v, round = on(r, self.round));
        for s in self.from.muts(r) {
            mutf!(self, v, from = s);
        }
        v
    }
}
impl Ty for SignedChoke {
    fn gen(r: &mut Rng) -> Self {
        SignedChoke { signature: by(r), choke: Ty::gen(r), address: by(r) }
    }
    fn muts(&self, r: &mut Rng) -> Vec<Self> {
        let mut v = vec![];
        mutf!(self, v, signature = ob(r, &self.signature));
        mutf!(self, v, address = ob(r, &self.address));
        for s in self.choke.muts(r) {
            mutf!(self, v, choke = s);
        }
        v
    }
}
impl Ty for WalLock<Blk> {
    fn gen(r: &mut Rng) -> Self {
        WalLock { lock_round: nu(r), lock_votes: Ty::gen(r), content: blk(r) }
    }
    fn muts(&self, r: &mut Rng) -> Vec<Self> {
        let mut v = vec![];
        mutf!(self, v, lock_round = on(r, self.lock_round));
        mutf!(self, v, content = oblk(r, &self.content));
        for s in self.lock_votes.muts(r) {
            mutf!(self, v, lock_votes = s);
        }
        v
    }
}
fn steps() -> Vec<Step> {
    vec![Step::Propose, Step::Prevote, Step::Precommit, Step::Brake, Step::Commit]
}
impl Ty for WalInfo<Blk> {
    fn gen(r: &mut Rng) -> Self {
        WalInfo { height: nu(r), round: nu(r), step: r.pick(&steps()).clone(), lock: if r.chance(50) { Some(Ty::gen(r)) } else { None }, from: Ty::gen(r) }
    }
    fn muts(&self, r: &mut Rng) -> Vec<Self> {
        let mut v = vec![];
        mutf!(self, v, height = on(r, self.height));
        mutf!(self, v, round = on(r, self.round));
        for s in steps() {
            if s != self.step {
                mutf!(self, v, step = s);
            }
        }
        mutf!(self, v, lock = if self.lock.is_some() { None } else { Some(Ty::gen(r)) });
        for s in self.from.muts(r) {
            mutf!(self, v, from = s);
        }
        v
    }
}

fn one<T: Ty>(rep: &Rep, r: &mut Rng, name: &str) {
    let x = T::gen(r);
    rep.at(format!("{} {:?}", name, x));
    let enc = rlp::encode(&x).to_vec();
    rep.case(&(name, enc.clone()));
    match guarded(|| rlp::decode::<T>(&enc)) {
        Ok(Ok(y)) if y == x => (),
        o => rep.fail(&["C20", if name.starts_with("Wal") { "C12" } else { "C20" }, if name.starts_with("Wal") { "C11" } else { "C20" }], "roundtrip", format!("{}: decoded {:?}", name, o), format!("{:?} encoded {:02x?}", x, enc)),
    }
    for y in x.muts(r) {
        if y == x {
            continue;
        }
        let e2 = rlp::encode(&y).to_vec();
        if e2 == enc {
            rep.fail(&["C20", "C22"], "collision", format!("{}: two values have one encoding", name), format!("{:?} and {:?} encoded {:02x?}", x, y, enc));
        }
        match guarded(|| rlp::decode::<T>(&e2)) {
            Ok(Ok(z)) if z == y => (),
            o => rep.fail(&["C20"], "roundtrip", format!("{}: decoded {:?}", name, o), format!("{:?}", y)),
        }
    }
    // broken encodings
    for _ in 0..14 {
        let mut b = enc.clone();
        match r.below(8) {
            0 => {
                let n = r.below(b.len() as u64 + 1) as usize;
                b.truncate(n);
            }
            1 => {
                let n = r.below(40) as usize;
                b = r.bytes(n);
            }
            2 => b = items(r, &enc, true, rep, name),
            3 => b = items(r, &enc, false, rep, name),
            4 => {
                let k = r.below(4) as usize;
                b.extend(r.bytes(k));
            }
            _ => {
                for _ in 0..1 + r.below(3) {
                    let i = r.below(b.len() as u64) as usize;
                    b[i] = if r.chance(50) { r.next() as u8 } else { *r.pick(&[0u8, 1, 2, 3, 5, 0x80, 0x81, 0xc0, 0xb8, 0xbf, 0xf8, 0xff]) };
                }
            }
        }
        rep.at(format!("decode {} {:02x?}", name, b));
        rep.case(&(name, b.clone()));
        match guarded(|| rlp::decode::<T>(&b)) {
            Err(p) => rep.fail(&["C21", if name == "WalInfo" { "C12" } else { "C21" }], "panic", format!("decoding {} panics: {}", name, p), format!("{:02x?}", b)),
            Ok(Ok(v)) => {
                // what was decoded is a value like any other
                if !b.windows(1).any(|w| w[0] == b'!') {
                    let e = rlp::encode(&v);
                    if rlp::decode::<T>(&e).ok().as_ref() != Some(&v) {
                        rep.fail(&["C20", "C21"], "redecode", format!("{}: {:?} does not decode to itself", name, v), format!("{:02x?}", b));
                    }
                }
            }
            Ok(Err(_)) => (),
        }
    }
    rep.sample(|| format!("{} {:?}", name, x));
}
/// the same list with one item more or less is no valid message
fn items(r: &mut Rng, enc: &[u8], more: bool, rep: &Rep, name: &str) -> Vec<u8> {
    let rl = rlp::Rlp::new(enc);
    let n = rl.item_count().unwrap_or(0);
    let mut its: Vec<Vec<u8>> = rl.iter().map(|i| i.as_raw().to_vec()).collect();
    if more {
        let k = r.below(n as u64 + 1) as usize;
        its.insert(k, vec![*r.pick(&[0x80u8, 1, 5, 0xc0])]);
    } else if n > 0 {
        its.remove(r.below(n as u64) as usize);
    }
    let mut s = RlpStream::new_list(its.len());
    for i in &its {
        s.append_raw(i, 1);
    }
    let b = s.out().to_vec();
    let bad = match name {
        "SignedProposal" => guarded(|| rlp::decode::<SignedProposal<Blk>>(&b).is_ok()),
        "Proposal" => guarded(|| rlp::decode::<Proposal<Blk>>(&b).is_ok()),
        "SignedVote" => guarded(|| rlp::decode::<SignedVote>(&b).is_ok()),
        "Vote" => guarded(|| rlp::decode::<Vote>(&b).is_ok()),
        "AggregatedVote" => guarded(|| rlp::decode::<AggregatedVote>(&b).is_ok()),
        "SignedChoke" => guarded(|| rlp::decode::<SignedChoke>(&b).is_ok()),
        "Choke" => guarded(|| rlp::decode::<Choke>(&b).is_ok()),
        "AggregatedChoke" => guarded(|| rlp::decode::<AggregatedChoke>(&b).is_ok()),
        "Proof" => guarded(|| rlp::decode::<Proof>(&b).is_ok()),
        "Status" => guarded(|| rlp::decode::<Status>(&b).is_ok()),
        "Node" => guarded(|| rlp::decode::<Node>(&b).is_ok()),
        "WalInfo" => guarded(|| rlp::decode::<WalInfo<Blk>>(&b).is_ok()),
        "WalLock" => guarded(|| rlp::decode::<WalLock<Blk>>(&b).is_ok()),
        "Commit" => guarded(|| rlp::decode::<Commit<Blk>>(&b).is_ok()),
        "PoLC" => guarded(|| rlp::decode::<PoLC>(&b).is_ok()),
        "UpdateFrom" => guarded(|| rlp::decode::<UpdateFrom>(&b).is_ok()),
        "AggregatedSignature" => guarded(|| rlp::decode::<AggregatedSignature>(&b).is_ok()),
        "DurationConfig" => guarded(|| rlp::decode::<DurationConfig>(&b).is_ok()),
        _ => Ok(false),
    };
    if bad == Ok(true) {
        rep.fail(&["C21"], "arity", format!("{} with {} items is accepted", name, its.len()), format!("{:02x?}", b));
    }
    b
}

/// a block that its own codec refuses
fn undecodable(rep: &Rep, r: &mut Rng) {
    let bad = Blk(Bytes::from(format!("!{}", r.below(1000))));
    macro_rules! go { ($t:ty, $($f:ident).+) => {{
        let mut x: $t = Ty::gen(r);
        x.$($f).+ = bad.clone();
        let b = rlp::encode(&x).to_vec();
        rep.at(format!("undecodable block in {:?}", x));
        match guarded(|| rlp::decode::<$t>(&b).is_ok()) {
            Ok(false) => (),
            Ok(true) => rep.fail(&["C21"], "block", format!("{} with a block its codec refuses is accepted", stringify!($t)), format!("{:02x?}", b)),
            Err(p) => rep.fail(&["C21"], "panic", format!("decoding {} with a block its codec refuses panics: {}", stringify!($t), p), format!("{:02x?}", b)),
        }
    }} }
    go!(Commit<Blk>, content);
    go!(Proposal<Blk>, content);
    go!(SignedProposal<Blk>, proposal.content);
    go!(WalLock<Blk>, content);
}
pub fn run(rep: &std::sync::Arc<Rep>) {
    rep.rule("seeded values of the 18 codec types with boundary integers and byte strings, all their single-field variants, and broken encodings (truncation, byte flips, item added or removed, random bytes), blocks their codec refuses; all 256 vote type, step and source bytes");
    let mut r = Rng::new(rep.seed ^ 0xC0DEC);
    // every byte for the enumerations
    for x in 0..=255u8 {
        let mk = |t: u8| {
            let mut s = RlpStream::new_list(4);
            s.append(&1u64).append(&2u64).append(&t).append(&vec![1u8]);
            s.out().to_vec()
        };
        rep.case(&("vt", x));
        match guarded(|| rlp::decode::<Vote>(&mk(x))) {
            Err(p) => rep.fail(&["C21"], "panic", format!("vote type {}: {}", x, p), format!("{:02x?}", mk(x))),
            Ok(v) => {
                let want = match x {
                    1 => Some(VoteType::Prevote),
                    2 => Some(VoteType::Precommit),
                    _ => None,
                };
                if v.ok().map(|v| v.vote_type) != want {
                    rep.fail(&["C21", "C20", "C22"], "votetype", format!("vote type byte {} is not decoded as {:?}", x, want), format!("{:02x?}", mk(x)));
                }
            }
        }
        let w: WalInfo<Blk> = WalInfo { height: 1, round: 2, step: Step::Propose, lock: None, from: UpdateFrom::PrecommitQC(AggregatedVote { signature: AggregatedSignature { signature: Bytes::new(), address_bitmap: Bytes::new() }, vote_type: VoteType::Precommit, height: 0, round: 0, block_hash: Bytes::new(), leader: Bytes::new() }) };
        let raw = rlp::encode(&w).to_vec();
        let rl = rlp::Rlp::new(&raw);
        let mut s = RlpStream::new_list(5);
        for (i, it) in rl.iter().enumerate() {
            if i == 2 {
                s.append(&x);
            } else {
                s.append_raw(it.as_raw(), 1);
            }
        }
        let b = s.out().to_vec();
        rep.at(format!("step {}", x));
        match guarded(|| rlp::decode::<WalInfo<Blk>>(&b)) {
            Err(p) => rep.fail(&["C21", "C12"], "panic", format!("step {}: {}", x, p), format!("{:02x?}", b)),
            Ok(v) => {
                if v.ok().map(|v| v.step) != steps().get(x as usize).cloned() {
                    rep.fail(&["C21", "C20", "C12"], "step", format!("step byte {} decoded wrongly", x), format!("{:02x?}", b));
                }
            }
        }
        let mut s = RlpStream::new_list(2);
        s.append(&x);
        let q: AggregatedVote = Ty::gen(&mut r);
        s.append(&q);
        let b = s.out().to_vec();
        match guarded(|| rlp::decode::<UpdateFrom>(&b)) {
            Err(p) => rep.fail(&["C21"], "panic", format!("source {}: {}", x, p), format!("{:02x?}", b)),
            Ok(v) => {
                let want = match x {
                    0 => Some(UpdateFrom::PrevoteQC(q)),
                    1 => Some(UpdateFrom::PrecommitQC(q)),
                    _ => None,
                };
                if v.ok() != want {
                    rep.fail(&["C21", "C20"], "source", format!("source byte {} decoded wrongly", x), format!("{:02x?}", b));
                }
            }
        }
    }
    while rep.go(14.0, 150.0) {
        undecodable(rep, &mut r);
        one::<SignedProposal<Blk>>(rep, &mut r, "SignedProposal");
        one::<Proposal<Blk>>(rep, &mut r, "Proposal");
        one::<PoLC>(rep, &mut r, "PoLC");
        one::<AggregatedSignature>(rep, &mut r, "AggregatedSignature");
        one::<AggregatedVote>(rep, &mut r, "AggregatedVote");
        one::<SignedVote>(rep, &mut r, "SignedVote");
        one::<Vote>(rep, &mut r, "Vote");
        one::<Commit<Blk>>(rep, &mut r, "Commit");
        one::<Proof>(rep, &mut r, "Proof");
        one::<DurationConfig>(rep, &mut r, "DurationConfig");
        one::<Status>(rep, &mut r, "Status");
        one::<Node>(rep, &mut r, "Node");
        one::<UpdateFrom>(rep, &mut r, "UpdateFrom");
        one::<WalLock<Blk>>(rep, &mut r, "WalLock");
        one::<WalInfo<Blk>>(rep, &mut r, "WalInfo");
        one::<Choke>(rep, &mut r, "Choke");
        one::<SignedChoke>(rep, &mut r, "SignedChoke");
        one::<AggregatedChoke>(rep, &mut r, "AggregatedChoke");
        // a certificate is verified over exactly the vote it certifies
        let q: AggregatedVote = Ty::gen(&mut r);
        let v = q.to_vote();
        if v.height != q.height || v.round != q.round || v.vote_type != q.vote_type || v.block_hash != q.block_hash {
            rep.fail(&["C22"], "to_vote", format!("{:?} certifies {:?}", q, v), format!("{:?}", q));
        }
    }
}

// ---- JSON
impl serde::Serialize for Blk {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        overlord::serde_hex::serialize(&self.0, s)
    }
}
impl<'de> serde::Deserialize<'de> for Blk {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        overlord::serde_hex::deserialize(d).map(Blk)
    }
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn hexes(v: &serde_json::Value, out: &mut Vec<String>) {
    match v {
        serde_json::Value::String(s) => out.push(s.clone()),
        serde_json::Value::Array(a) => a.iter().for_each(|x| hexes(x, out)),
        serde_json::Value::Object(o) => o.values().for_each(|x| hexes(x, out)),
        _ => (),
    }
}
fn js<T: serde::Serialize + serde::de::DeserializeOwned + PartialEq + Debug>(rep: &Rep, r: &mut Rng, name: &str, x: T, bytes: Vec<Bytes>) {
    rep.at(format!("json {} {:?}", name, x));
    let inp = format!("{} {:?}", name, x);
    let s = match guarded(|| serde_json::to_string(&x)) {
        Ok(Ok(s)) => s,
        o => return rep.fail(&["C23"], "write", format!("cannot be written: {:?}", o), inp),
    };
    rep.case(&(name, s.clone()));
    rep.sample(|| s.clone());
    match guarded(|| serde_json::from_str::<T>(&s)) {
        Ok(Ok(y)) if y == x => (),
        o => rep.fail(&["C23"], "roundtrip", format!("reads back as {:?} from {}", o, s), inp.clone()),
    }
    let v: serde_json::Value = serde_json::from_str(&s).unwrap();
    match guarded(|| serde_json::from_value::<T>(v.clone())) {
        Ok(Ok(y)) if y == x => (),
        // hexadecimal text is read as a borrowed or an owned string
        o => rep.fail(&["C23"], "roundtrip", format!("reads back as {:?} from the value {}", o, s), inp.clone()),
    }
    let mut hs = vec![];
    hexes(&v, &mut hs);
    for b in &bytes {
        if !hs.iter().any(|h| h.to_lowercase() == hex(b) || h.to_lowercase() == format!("0x{}", hex(b))) {
            rep.fail(&["C23"], "hex", format!("{} does not appear as hexadecimal text in {}", hex(b), s), inp.clone());
        }
    }
    // text that is no valid form
    let spots: Vec<usize> = s.char_indices().filter(|(_, c)| c.is_ascii_hexdigit()).map(|(i, _)| i).collect();
    for _ in 0..8 {
        let mut t = s.clone();
        let must_fail = match r.below(3) {
            0 => {
                // a digit that is none, inside one of the hexadecimal strings
                let h = hs.iter().filter(|h| h.len() >= 2 && h.chars().all(|c| c.is_ascii_hexdigit())).cloned().collect::<Vec<_>>();
                if h.is_empty() {
                    continue;
                }
                let k = r.pick(&h).clone();
                let mut bad = k.clone().into_bytes();
                let i = r.below(bad.len() as u64) as usize;
                bad[i] = *r.pick(&[b'g', b'z', b' ', b'-', b'G', b'/', b':', b'@', b'`']);
                t = s.replacen(&format!("\"{}\"", k), &format!("\"{}\"", String::from_utf8(bad).unwrap()), 1);
                t != s
            }
            1 => {
                // an odd number of digits
                let h = hs.iter().filter(|h| h.len() >= 2 && h.chars().all(|c| c.is_ascii_hexdigit())).cloned().collect::<Vec<_>>();
                if h.is_empty() {
                    continue;
                }
                let k = r.pick(&h).clone();
                t = s.replacen(&format!("\"{}\"", k), &format!("\"{}\"", if r.chance(50) { k[1..].to_string() } else { format!("{}0", k) }), 1);
                t != s
            }
            _ => {
                if !spots.is_empty() {
                    let i = *r.pick(&spots);
                    t.replace_range(i..i + 1, r.pick(&["\"", "{", "", "null", "x", "\u{e9}", "[", "}"]));
                }
                false
            }
        };
        rep.at(format!("json {} {}", name, t));
        rep.case(&t);
        match guarded(|| serde_json::from_str::<T>(&t)) {
            Err(p) => rep.fail(&["C23"], "panic", format!("reading panics: {}", p), t),
            Ok(Ok(y)) if must_fail => rep.fail(&["C23"], "invalid", format!("text that is no valid form reads as {:?}", y), t),
            _ => (),
        }
    }
}
fn avb(q: &AggregatedVote) -> Vec<Bytes> {
    vec![q.signature.signature.clone(), q.signature.address_bitmap.clone(), q.block_hash.clone(), q.leader.clone()]
}
fn ufb(u: &UpdateFrom) -> Vec<Bytes> {
    match u {
        UpdateFrom::PrevoteQC(q) | UpdateFrom::PrecommitQC(q) => avb(q),
        UpdateFrom::ChokeQC(c) => {
            let mut v = c.voters.clone();
            v.push(c.signature.clone());
            v
        }
    }
}
pub fn run_json(rep: &std::sync::Arc<Rep>) {
    rep.rule("seeded values of the JSON types: written, read back from text and from a value, byte strings looked up as hexadecimal text; damaged text (bad digit, odd length, broken syntax)");
    let mut r = Rng::new(rep.seed ^ 0x150);
    while rep.go(10.0, 100.0) {
        let r = &mut r;
        let q: AggregatedVote = Ty::gen(r);
        let b = avb(&q);
        js(rep, r, "AggregatedVote", q, b);
        let c: AggregatedChoke = Ty::gen(r);
        let mut b = c.voters.clone();
        b.push(c.signature.clone());
        js(rep, r, "AggregatedChoke", c, b);
        let u: UpdateFrom = Ty::gen(r);
        let b = ufb(&u);
        js(rep, r, "UpdateFrom", u, b);
        let n: Node = Ty::gen(r);
        let b = vec![n.address.clone()];
        js(rep, r, "Node", n, b);
        let s: AggregatedSignature = Ty::gen(r);
        let b = vec![s.signature.clone(), s.address_bitmap.clone()];
        js(rep, r, "AggregatedSignature", s, b);
        let w: WalInfo<Blk> = Ty::gen(r);
        let mut b = ufb(&w.from);
        if let Some(l) = &w.lock {
            b.extend(avb(&l.lock_votes));
            b.push(l.content.0.clone());
        }
        js(rep, r, "WalInfo", w, b);
        let v = vt(r);
        js(rep, r, "VoteType", v, vec![]);
        let d: DurationConfig = Ty::gen(r);
        js(rep, r, "DurationConfig", d, vec![]);
        let st = r.pick(&steps()).clone();
        js(rep, r, "Step", st, vec![]);
        let (a, b2) = (nu(r), nu(r));
        let v = vt(r);
        let vc = r.pick(&[ViewChangeReason::NoProposalFromNetwork, ViewChangeReason::NoPrevoteQCFromNetwork, ViewChangeReason::CheckBlockNotPass, ViewChangeReason::UpdateFromHigherPrevoteQC(a, b2), ViewChangeReason::UpdateFromHigherChokeQC(b2, a), ViewChangeReason::LeaderReceivedVoteBelowThreshold(v), ViewChangeReason::Others]).clone();
        let t = serde_json::to_string(&vc).unwrap();
        match guarded(|| serde_json::from_str::<ViewChangeReason>(&t).map(|x| format!("{:?}", x))) {
            Ok(Ok(x)) if x == format!("{:?}", vc) => (),
            o => rep.fail(&["C23"], "roundtrip", format!("{:?} reads back as {:?}", vc, o), t),
        }
    }
}
