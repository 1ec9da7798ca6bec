//! C24 (C03, C14, C17): the collections against plain maps
use crate::mock::*;
use crate::rng::*;
use bytes::Bytes;
use creep::Context;
use overlord::types::*;
use overlord::verif::{ChokeCollector, ProposalCollector, VoteCollector};
use std::collections::{BTreeMap, BTreeSet, HashMap};

fn b(s: String) -> Bytes {
    Bytes::from(s.into_bytes())
}
pub fn run(rep: &std::sync::Arc<Rep>) {
    rep.rule("seeded operation sequences (up to 60 operations) over 4 heights x 4 rounds (small ones, or spread up to 2^64-1) x 2 types x 4 hashes x 6 voters on each collector, empty signatures and hashes among them; after every operation all queries are compared with plain maps");
    let mut r = Rng::new(rep.seed ^ 0xC24);
    let mut n = 0u64;
    while rep.go(10.0, 100.0) {
        n += 1;
        rep.at(format!("sequence {}", n));
        let mut tr = String::new();
        if let Err(p) = guarded(|| match n % 3 {
            0 => proposals(rep, &mut r, &mut tr),
            1 => votes(rep, &mut r, &mut tr),
            _ => chokes(rep, &mut r, &mut tr),
        }) {
            rep.fail(&["C24"], "panic", format!("panic: {}", p), tr.clone());
        }
        rep.case(&tr);
        rep.sample(|| tr.clone());
    }
}
/// five ordered heights or rounds; the last one is only asked for
fn spread(r: &mut Rng) -> [u64; 5] {
    *r.pick(&[[0, 1, 2, 3, 4], [0, 1, 2, 3, 4], [1, 1 << 32, (1 << 32) + 1, u64::MAX - 1, u64::MAX], [0, 255, 256, 257, 65536], [7, 11, 12, 40, 41]])
}
fn mkp(h: u64, ro: u64, k: u64) -> SignedProposal<Blk> {
    SignedProposal { signature: b(format!("s{}", k)), proposal: Proposal { height: h, round: ro, content: Blk(b(format!("c{}", k))), block_hash: b(format!("h{}", k)), lock: None, proposer: b(format!("p{}", k % 2)) } }
}
fn proposals(rep: &Rep, r: &mut Rng, tr: &mut String) {
    let mut c = ProposalCollector::<Blk>::new();
    let mut m: BTreeMap<(u64, u64), SignedProposal<Blk>> = BTreeMap::new();
    let (hh, rr) = (spread(r), spread(r));
    for _ in 0..r.below(40) + 4 {
        let (h, ro) = (hh[r.below(4) as usize], rr[r.below(4) as usize]);
        match r.below(12) {
            0 => {
                tr.push_str(&format!("flush {};", h));
                c.flush(h);
                m = m.split_off(&(h, 0));
            }
            1 => {
                tr.push_str(&format!("take {};", h));
                let got = c.get_height_proposals(h);
                let want: Vec<_> = m.range((h, 0)..=(h, u64::MAX)).map(|x| x.1.clone()).collect();
                let mut g: Vec<_> = got.unwrap_or_default().into_iter().map(|x| x.0).collect();
                g.sort_by_key(|p| p.proposal.round);
                if g != want {
                    rep.fail(&["C24", "C14"], "take", format!("get_height_proposals({}) gave {:?}, expected {:?}", h, g, want), tr.clone());
                }
                for k in want {
                    m.remove(&(k.proposal.height, k.proposal.round));
                }
            }
            _ => {
                let p = mkp(h, ro, r.below(3));
                tr.push_str(&format!("insert {} {} {:?};", h, ro, p.proposal.block_hash));
                let ok = c.insert(Context::new(), h, ro, p.clone()).is_ok();
                let want = m.get(&(h, ro)).map_or(true, |x| x == &p);
                m.entry((h, ro)).or_insert(p);
                if ok != want {
                    rep.fail(&["C24", "C15"], "insert", format!("insert returned ok={} expected {}", ok, want), tr.clone());
                }
            }
        }
        for &h in &hh {
            for &ro in &rr {
                let g = c.get(h, ro).ok().map(|x| x.0);
                if g.as_ref() != m.get(&(h, ro)) {
                    rep.fail(&["C24", "C14"], "get", format!("get({},{}) gave {:?} expected {:?}", h, ro, g, m.get(&(h, ro))), tr.clone());
                    return;
                }
            }
        }
    }
}
#[derive(Clone)]
struct V {
    map: HashMap<(u64, u64, u8, Bytes), SignedVote>, // by height, round, type, voter: the first
    keyed: HashMap<(u64, u64, u8, Bytes), BTreeSet<Bytes>>, // by height, round, type, hash
    qc: HashMap<(u64, u64, u8), AggregatedVote>,
    qh: HashMap<(u64, Bytes, u8), AggregatedVote>,
}
fn votes(rep: &Rep, r: &mut Rng, tr: &mut String) {
    let mut c = VoteCollector::new();
    let mut m = V { map: HashMap::new(), keyed: HashMap::new(), qc: HashMap::new(), qh: HashMap::new() };
    let ty = |x: u64| if x == 0 { VoteType::Prevote } else { VoteType::Precommit };
    let hs: Vec<Bytes> = vec![Bytes::new(), b("h1".into()), b("h2".into()), b("h3".into())];
    let (hh, rr) = (spread(r), spread(r));
    for _ in 0..r.below(50) + 4 {
        let (h, ro, t) = (hh[r.below(4) as usize], rr[r.below(4) as usize], r.below(2));
        let hash = r.pick(&hs).clone();
        match r.below(14) {
            0 => {
                tr.push_str(&format!("flush {};", h));
                c.flush(h);
                m.map.retain(|k, _| k.0 >= h);
                m.keyed.retain(|k, _| k.0 >= h);
                m.qc.retain(|k, _| k.0 >= h);
                m.qh.retain(|k, _| k.0 >= h);
            }
            1 => {
                tr.push_str(&format!("take {};", h));
                let got = c.get_height_votes(h);
                let (gv, gq) = got.unwrap_or_default();
                let mut a: Vec<String> = gv.iter().map(|x| format!("{:?}", x.0)).collect();
                let mut w: Vec<String> = m.map.iter().filter(|x| x.0 .0 == h).map(|x| format!("{:?}", x.1)).collect();
                a.sort();
                w.sort();
                let mut aq: Vec<String> = gq.iter().map(|x| format!("{:?}", x)).collect();
                let mut wq: Vec<String> = m.qc.iter().filter(|x| x.0 .0 == h).map(|x| format!("{:?}", x.1)).collect();
                aq.sort();
                wq.sort();
                if a != w || aq != wq {
                    rep.fail(&["C24", "C14"], "take", format!("get_height_votes({}) gave {:?} {:?}, expected {:?} {:?}", h, a, aq, w, wq), tr.clone());
                }
                m.map.retain(|k, _| k.0 != h);
                m.keyed.retain(|k, _| k.0 != h);
                m.qc.retain(|k, _| k.0 != h);
                m.qh.retain(|k, _| k.0 != h);
            }
            2..=4 => {
                let q = AggregatedVote { signature: AggregatedSignature { signature: b(format!("q{}", r.below(3))), address_bitmap: b("x".into()) }, vote_type: ty(t), height: h, round: ro, block_hash: hash.clone(), leader: b("l".into()) };
                tr.push_str(&format!("qc {} {} {} {:?} {:?};", h, ro, t, hash, q.signature.signature));
                c.set_qc(q.clone());
                m.qc.insert((h, ro, t as u8), q.clone());
                m.qh.insert((h, hash, t as u8), q);
            }
            _ => {
                let a = b(format!("v{}", r.below(6)));
                let v = SignedVote { signature: if r.chance(10) { Bytes::new() } else { b(format!("s{}", r.below(3))) }, vote: Vote { height: h, round: ro, vote_type: ty(t), block_hash: hash.clone() }, voter: a.clone() };
                tr.push_str(&format!("vote {} {} {} {:?} {:?} {:?};", h, ro, t, hash, a, v.signature));
                c.insert_vote(Context::new(), hash.clone(), v.clone(), a.clone());
                if !m.map.contains_key(&(h, ro, t as u8, a.clone())) {
                    m.map.insert((h, ro, t as u8, a.clone()), v);
                    m.keyed.entry((h, ro, t as u8, hash)).or_default().insert(a);
                }
            }
        }
        for &h in &hh {
            for t in 0..2u64 {
                for x in &hs {
                    let g = c.get_qc_by_hash(h, x.clone(), ty(t));
                    if g.as_ref() != m.qh.get(&(h, x.clone(), t as u8)) {
                        rep.fail(&["C24", "C13"], "qc_by_hash", format!("get_qc_by_hash({},{:?},{}) gave {:?}", h, x, t, g), tr.clone());
                        return;
                    }
                }
                for &ro in &rr {
                    let g = c.get_qc_by_id(h, ro, ty(t)).ok();
                    if g.as_ref() != m.qc.get(&(h, ro, t as u8)) {
                        rep.fail(&["C24"], "qc_by_id", format!("get_qc_by_id({},{},{}) gave {:?}", h, ro, t, g), tr.clone());
                        return;
                    }
                    let cnt = m.map.keys().filter(|k| k.0 == h && k.1 == ro && k.2 == t as u8).count();
                    if c.vote_count(h, ro, ty(t)) != cnt {
                        rep.fail(&["C24"], "count", format!("vote_count({},{},{}) gave {} expected {}", h, ro, t, c.vote_count(h, ro, ty(t)), cnt), tr.clone());
                        return;
                    }
                    let mut got: BTreeMap<Bytes, BTreeSet<Bytes>> = BTreeMap::new();
                    if let Ok(mm) = c.get_vote_map(h, ro, ty(t)) {
                        for (k, v) in mm {
                            got.insert(k.clone(), v.iter().cloned().collect());
                        }
                    }
                    let want: BTreeMap<Bytes, BTreeSet<Bytes>> = m.keyed.iter().filter(|(k, _)| k.0 == h && k.1 == ro && k.2 == t as u8).map(|(k, v)| (k.3.clone(), v.clone())).collect();
                    if got != want {
                        rep.fail(&["C24", "C03"], "vote_map", format!("get_vote_map({},{},{}) gave {:?} expected {:?}", h, ro, t, got, want), tr.clone());
                        return;
                    }
                    for x in &hs {
                        let mut g: Vec<String> = c.get_votes(h, ro, ty(t), x).unwrap_or_default().iter().map(|v| format!("{:?}", v.0)).collect();
                        g.sort();
                        let mut w: Vec<String> = want.get(x).map_or(vec![], |s| s.iter().map(|a| format!("{:?}", m.map[&(h, ro, t as u8, a.clone())])).collect());
                        w.sort();
                        if g != w {
                            rep.fail(&["C24", "C03"], "votes", format!("get_votes({},{},{},{:?}) gave {:?} expected {:?}", h, ro, t, x, g, w), tr.clone());
                            return;
                        }
                    }
                }
            }
        }
    }
}
fn chokes(rep: &Rep, r: &mut Rng, tr: &mut String) {
    let mut c = ChokeCollector::new();
    let mut m: BTreeMap<u64, BTreeMap<Bytes, SignedChoke>> = BTreeMap::new();
    let mut q: BTreeMap<u64, AggregatedChoke> = BTreeMap::new();
    let qc = AggregatedVote { signature: AggregatedSignature { signature: b("q".into()), address_bitmap: b("x".into()) }, vote_type: VoteType::Prevote, height: 0, round: 0, block_hash: b("h".into()), leader: b("l".into()) };
    let from = |r: &mut Rng| match r.below(4) {
        0 => UpdateFrom::ChokeQC(AggregatedChoke { height: 1, round: r.below(3), signature: b("s".into()), voters: vec![] }),
        1 => UpdateFrom::PrecommitQC(qc.clone()),
        _ => UpdateFrom::PrevoteQC(qc.clone()),
    };
    let rr = spread(r);
    for _ in 0..r.below(40) + 4 {
        let ro = rr[r.below(5) as usize];
        match r.below(20) {
            0 => {
                tr.push_str("clear;");
                c.clear();
                m.clear();
                q.clear();
            }
            1..=3 => {
                let a = AggregatedChoke { height: 1, round: ro, signature: b(format!("s{}", r.below(3))), voters: vec![] };
                tr.push_str(&format!("qc {};", ro));
                c.set_qc(ro, a.clone());
                q.insert(ro, a);
            }
            _ => {
                let a = b(format!("v{}", r.below(6)));
                let s = SignedChoke { signature: b(format!("s{}", r.below(3))), choke: Choke { height: 1, round: ro, from: from(r) }, address: a.clone() };
                tr.push_str(&format!("choke {} {:?} {:?};", ro, a, s.signature));
                c.insert(ro, s.clone());
                m.entry(ro).or_default().insert(a, s);
            }
        }
        for ro in rr.iter().cloned().chain(vec![5]) {
            let mut g: Vec<String> = c.get_chokes(ro).unwrap_or_default().iter().map(|x| format!("{:?}", x.address)).collect();
            g.sort();
            let mut w: Vec<String> = m.get(&ro).map_or(vec![], |x| x.keys().map(|k| format!("{:?}", k)).collect());
            w.sort();
            // a later choke of the same sender is signed over the same bytes: the sender counts
            if g != w || c.get_qc(ro).as_ref() != q.get(&ro) {
                rep.fail(&["C24", "C17"], "chokes", format!("round {} holds {:?} / {:?}, expected {:?} / {:?}", ro, g, c.get_qc(ro), w, q.get(&ro)), tr.clone());
                return;
            }
            for x in c.get_chokes(ro).unwrap_or_default() {
                if x.choke.round != ro {
                    rep.fail(&["C24", "C17"], "chokes", format!("round {} holds {:?}", ro, x), tr.clone());
                }
            }
        }
        for nn in 0..12usize {
            let w = m.iter().rev().find(|x| x.1.len() * 3 > nn * 2).map(|x| *x.0);
            if c.max_round_above_threshold(nn) != w {
                rep.fail(&["C24", "C17"], "above", format!("max_round_above_threshold({}) gave {:?} expected {:?}", nn, c.max_round_above_threshold(nn), w), tr.clone());
                return;
            }
        }
    }
}
