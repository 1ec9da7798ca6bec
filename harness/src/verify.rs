//! C02, C22 (C01, C15, C17): what parallel_verify lets through
use crate::mock::*;
use crate::rng::*;
use bytes::Bytes;
use creep::Context;
use overlord::types::*;
use overlord::verif::{parallel_verify, AuthorityManage};
use std::sync::Arc;

pub fn vote_hash(v: &Vote) -> Bytes {
    // the list [height, round, type, hash], stated independently of the code
    let mut s = rlp::RlpStream::new_list(4);
    s.append(&v.height).append(&v.round).append(&(if v.vote_type == VoteType::Prevote { 1u8 } else { 2u8 })).append(&v.block_hash.to_vec());
    mhash(&s.out())
}
pub fn prop_hash(p: &Proposal<Blk>) -> Bytes {
    mhash(&rlp::encode(p))
}
pub fn choke_hash(h: u64, r: u64) -> Bytes {
    let mut s = rlp::RlpStream::new_list(2);
    s.append(&h).append(&r);
    mhash(&s.out())
}
pub fn mk_qc(l: &[Node], voters: &[Bytes], t: VoteType, h: u64, r: u64, hash: &Bytes, leader: &Bytes) -> AggregatedVote {
    let v = Vote { height: h, round: r, vote_type: t.clone(), block_hash: hash.clone() };
    AggregatedVote { signature: AggregatedSignature { signature: magg(voters, &vote_hash(&v)), address_bitmap: bitmap(l, voters) }, vote_type: t, height: h, round: r, block_hash: hash.clone(), leader: leader.clone() }
}
pub fn qc_valid(l: &[Node], q: &AggregatedVote) -> bool {
    let vs = unbitmap(l, &q.signature.address_bitmap);
    let v = Vote { height: q.height, round: q.round, vote_type: q.vote_type.clone(), block_hash: q.block_hash.clone() };
    quorum(l, &vs) && q.signature.signature == magg(&vs, &vote_hash(&v))
}
pub fn valid(l: &[Node], m: &OverlordMsg<Blk>) -> bool {
    match m {
        OverlordMsg::SignedProposal(s) => s.signature == msign(&s.proposal.proposer, &prop_hash(&s.proposal)) && s.proposal.lock.as_ref().map_or(true, |p| qc_valid(l, &p.lock_votes)),
        OverlordMsg::SignedVote(s) => s.signature == msign(&s.voter, &vote_hash(&s.vote)),
        OverlordMsg::AggregatedVote(q) => qc_valid(l, q),
        OverlordMsg::SignedChoke(s) => s.signature == msign(&s.address, &choke_hash(s.choke.height, s.choke.round)),
        _ => false,
    }
}
pub fn flip(r: &mut Rng, b: &Bytes) -> Bytes {
    let mut v = b.to_vec();
    if v.is_empty() || r.chance(20) {
        v.push(r.next() as u8);
    } else {
        let i = r.below(v.len() as u64) as usize;
        v[i] ^= 1 << r.below(8);
    }
    Bytes::from(v)
}
pub fn mq(r: &mut Rng, q: &mut AggregatedVote) {
    match r.below(8) {
        0 => q.height ^= 1,
        1 => q.round ^= 1,
        2 => q.vote_type = if q.is_prevote_qc() { VoteType::Precommit } else { VoteType::Prevote },
        3 => q.block_hash = flip(r, &q.block_hash),
        4 => q.signature.signature = flip(r, &q.signature.signature),
        5 => q.signature.address_bitmap = flip(r, &q.signature.address_bitmap),
        6 => q.signature.address_bitmap = Bytes::new(),
        _ => q.leader = flip(r, &q.leader),
    }
}
pub fn run(rep: &std::sync::Arc<Rep>) {
    rep.rule("authority lists of 1..9 validators, voter sets of every size around the two-thirds boundary, valid messages and messages with 0..2 mutated fields; each is given to parallel_verify and must be forwarded unchanged exactly if valid");
    let mut r = Rng::new(rep.seed ^ 0xFE1);
    let rt = rt();
    let mut n = 0u64;
    while rep.go(10.0, 100.0) {
        n += 1;
        let k = 1 + r.below(9) as usize;
        let l: Vec<Node> = (0..k).map(|i| node(&Bytes::from(format!("val{}", i)), 1, if n % 3 == 0 { 1 } else { r.below(5) as u32 + (i == 0) as u32 })).collect();
        let mut auth = AuthorityManage::new();
        auth.update(&mut l.clone());
        let subset = |r: &mut Rng| -> Vec<Bytes> {
            let mut v: Vec<Bytes> = l.iter().map(|n| n.address.clone()).collect();
            r.shuffle(&mut v);
            let want = (k * 2 / 3 + r.below(3) as usize).min(k);
            v.truncate(if r.chance(20) { r.below(k as u64 + 1) as usize } else { want });
            v
        };
        let t = if r.chance(50) { VoteType::Prevote } else { VoteType::Precommit };
        let hash = Bytes::from(format!("hash{}", r.below(3)));
        let big = |r: &mut Rng| if r.chance(75) { r.below(4) } else { *r.pick(&[255, 256, 1 << 32, (1 << 32) + 3, u64::MAX, 1 << 63]) };
        let (h, ro) = (big(&mut r), big(&mut r));
        let mut msg: OverlordMsg<Blk> = match r.below(5) {
            0 | 1 => {
                let s = subset(&mut r);
                let mut q = mk_qc(&l, &s, t, h, ro, &hash, &l[0].address);
                for _ in 0..r.below(3) {
                    if r.chance(60) {
                        mq(&mut r, &mut q);
                    }
                }
                OverlordMsg::AggregatedVote(q)
            }
            2 => {
                let mut p = Proposal { height: h, round: ro, content: Blk(Bytes::from("c")), block_hash: hash.clone(), lock: None, proposer: l[0].address.clone() };
                if r.chance(60) {
                    let s = subset(&mut r);
                    let mut q = mk_qc(&l, &s, VoteType::Prevote, h, ro, &hash, &l[0].address);
                    if r.chance(40) {
                        mq(&mut r, &mut q);
                    }
                    p.lock = Some(PoLC { lock_round: ro, lock_votes: q });
                }
                let mut sp = SignedProposal { signature: msign(&p.proposer, &prop_hash(&p)), proposal: p };
                match r.below(8) {
                    0 => sp.signature = flip(&mut r, &sp.signature),
                    1 => sp.proposal.height ^= 1,
                    2 => sp.proposal.content = Blk(Bytes::from("d")),
                    3 => sp.proposal.proposer = flip(&mut r, &sp.proposal.proposer),
                    4 => sp.proposal.block_hash = flip(&mut r, &sp.proposal.block_hash),
                    _ => (),
                }
                OverlordMsg::SignedProposal(sp)
            }
            3 => {
                let v = Vote { height: h, round: ro, vote_type: t, block_hash: hash.clone() };
                let a = r.pick(&l).address.clone();
                let mut sv = SignedVote { signature: msign(&a, &vote_hash(&v)), vote: v, voter: a };
                match r.below(9) {
                    0 => sv.signature = flip(&mut r, &sv.signature),
                    1 => sv.vote.height ^= 1 << *r.pick(&[0, 1, 8, 32, 63]),
                    2 => sv.vote.round ^= 1 << *r.pick(&[0, 1, 8, 32, 63]),
                    3 => sv.vote.vote_type = if sv.is_prevote() { VoteType::Precommit } else { VoteType::Prevote },
                    4 => sv.vote.block_hash = flip(&mut r, &sv.vote.block_hash),
                    5 => sv.voter = flip(&mut r, &sv.voter),
                    _ => (),
                }
                OverlordMsg::SignedVote(sv)
            }
            _ => {
                let a = r.pick(&l).address.clone();
                let q = mk_qc(&l, &subset(&mut r), VoteType::Prevote, h, ro, &hash, &l[0].address);
                let mut sc = SignedChoke { signature: msign(&a, &choke_hash(h, ro)), choke: Choke { height: h, round: ro, from: UpdateFrom::PrevoteQC(q) }, address: a };
                match r.below(7) {
                    0 => sc.signature = flip(&mut r, &sc.signature),
                    1 => sc.choke.height ^= 1 << *r.pick(&[0, 1, 8, 32, 63]),
                    2 => sc.choke.round ^= 1 << *r.pick(&[0, 1, 8, 32, 63]),
                    3 => sc.address = flip(&mut r, &sc.address),
                    _ => (),
                }
                OverlordMsg::SignedChoke(sc)
            }
        };
        if r.chance(2) {
            msg = OverlordMsg::Stop;
        }
        let want = valid(&l, &msg);
        let inp = format!("list {:?} message {:?}", l.iter().map(|n| (n.address.clone(), n.vote_weight)).collect::<Vec<_>>(), msg);
        rep.at(inp.clone());
        rep.case(&inp);
        rep.count(if want { "valid" } else { "invalid" }, 1);
        let p0 = PANICS.load(std::sync::atomic::Ordering::SeqCst);
        let got = rt.block_on(async {
            let (tx, mut rx) = futures::channel::mpsc::unbounded();
            parallel_verify(Context::new(), msg.clone(), Arc::new(Cry::new(l[0].address.clone())), auth.clone(), tx).await;
            for _ in 0..6 {
                tokio::task::yield_now().await;
            }
            let mut g = vec![];
            while let Ok(Some(x)) = rx.try_next() {
                g.push(x.1);
            }
            g
        });
        if PANICS.load(std::sync::atomic::Ordering::SeqCst) != p0 {
            rep.fail(&["C02", "C25"], "panic", format!("verification panics: {:?}", LAST_PANIC.lock().unwrap()), inp);
            continue;
        }
        let kind = match &msg {
            OverlordMsg::AggregatedVote(_) => "C01",
            OverlordMsg::SignedProposal(_) => "C15",
            OverlordMsg::SignedChoke(_) => "C17",
            _ => "C22",
        };
        if got != if want { vec![msg.clone()] } else { vec![] } {
            let mut p = vec!["C02", "C22", kind];
            if !want && kind != "C17" {
                p.push("C26");
            }
            rep.fail(&p, if want { "rejected" } else { "accepted" }, format!("valid: {}, forwarded: {:?}", want, got), inp);
        }
    }
}
