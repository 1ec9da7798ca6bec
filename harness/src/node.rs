//! C27: whole instances, through the public interface, under a paused clock
use crate::mock::*;
use crate::rng::*;
use async_trait::async_trait;
use bytes::Bytes;
use creep::Context;
use overlord::types::*;
use overlord::verif::AuthorityManage;
use overlord::{Consensus, DurationConfig, Overlord, Wal};
use std::error::Error;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::time::Instant;

/// what the instance asks of its application and its log, with the virtual time in ms
#[derive(Clone, Debug, PartialEq)]
enum Did {
    GetBlock(u64),
    Check(u64, Bytes),
    Send(Option<Bytes>, OverlordMsg<Blk>),
    Report(String),
}
struct Rec {
    start: Instant,
    log: Mutex<Vec<(u64, Did)>>,
    saved: Mutex<u64>,
    loaded: Mutex<u64>,
}
impl Rec {
    fn put(&self, d: Did) {
        self.log.lock().unwrap().push((self.start.elapsed().as_millis() as u64, d));
    }
}
#[async_trait]
impl Consensus<Blk> for Rec {
    async fn get_block(&self, _c: Context, h: u64) -> Result<(Blk, Hash), Box<dyn Error + Send>> {
        self.put(Did::GetBlock(h));
        let b = Bytes::from(format!("block{}", h));
        Ok((Blk(b.clone()), mhash(&b)))
    }
    async fn check_block(&self, _c: Context, h: u64, hash: Hash, _b: Blk) -> Result<(), Box<dyn Error + Send>> {
        self.put(Did::Check(h, hash));
        Ok(())
    }
    async fn commit(&self, _c: Context, _h: u64, _x: Commit<Blk>) -> Result<Status, Box<dyn Error + Send>> {
        err("commit")
    }
    async fn get_authority_list(&self, _c: Context, _h: u64) -> Result<Vec<Node>, Box<dyn Error + Send>> {
        Ok(vec![])
    }
    async fn broadcast_to_other(&self, _c: Context, m: OverlordMsg<Blk>) -> Result<(), Box<dyn Error + Send>> {
        self.put(Did::Send(None, m));
        Ok(())
    }
    async fn transmit_to_relayer(&self, _c: Context, a: Address, m: OverlordMsg<Blk>) -> Result<(), Box<dyn Error + Send>> {
        self.put(Did::Send(Some(a), m));
        Ok(())
    }
    fn report_error(&self, _c: Context, e: overlord::error::ConsensusError) {
        self.put(Did::Report(format!("{:?}", e)));
    }
    fn report_view_change(&self, _c: Context, _h: u64, _r: u64, _w: ViewChangeReason) {}
}
#[async_trait]
impl Wal for Rec {
    async fn save(&self, _i: Bytes) -> Result<(), Box<dyn Error + Send>> {
        *self.saved.lock().unwrap() += 1;
        Ok(())
    }
    async fn load(&self) -> Result<Option<Bytes>, Box<dyn Error + Send>> {
        *self.loaded.lock().unwrap() += 1;
        Ok(None)
    }
}

pub fn run(rep: &std::sync::Arc<Rep>) {
    rep.rule("seeded instances (1..6 validators, own address in or out of the list, start height 0 or more, interval, ratios) run through Overlord::new, get_handler, run and send_msg; messages sent before and while it runs; the sends of the first rounds with their times, and what follows a stop, are compared with a plain calculation");
    let mut r = Rng::new(rep.seed ^ 0xC27);
    let mut n = 0u64;
    while rep.go(8.0, 80.0) {
        n += 1;
        one(rep, &mut r, n);
    }
}

fn vote(m: &OverlordMsg<Blk>) -> Option<(VoteType, u64, u64, Bytes, Bytes, Bytes)> {
    match m {
        OverlordMsg::SignedVote(v) => Some((v.vote.vote_type.clone(), v.vote.height, v.vote.round, v.vote.block_hash.clone(), v.voter.clone(), v.signature.clone())),
        _ => None,
    }
}

fn one(rep: &Rep, r: &mut Rng, n: u64) {
    let k = 1 + r.below(6) as usize;
    let pool: Vec<Bytes> = (0..k + 1).map(|i| Bytes::from(format!("{}v{}", "w".repeat((i * 3 + n as usize) % 4), (i as u64 * 7 + n) % 89 + 10))).collect();
    let me = pool[0].clone();
    let list_of = |r: &mut Rng, with_me: bool| -> Vec<Node> {
        let mut l = vec![];
        for a in pool.iter().skip(1) {
            if r.chance(80) {
                l.push(node(a, 1 + r.below(3) as u32, 1 + r.below(3) as u32));
            }
        }
        if with_me || l.is_empty() {
            let w = if with_me && !l.is_empty() && r.chance(20) { 0 } else { 1 };
            l.push(node(if with_me { &me } else { &pool[1] }, 1, w));
        }
        r.shuffle(&mut l);
        l
    };
    let listed = r.chance(75);
    let list = list_of(r, listed);
    let h0 = *r.pick(&[0u64, 0, 1, 2, 9, 1 << 40]);
    let interval = *r.pick(&[1000u64, 3000, 200, 50, 17]);
    let cfg = if r.chance(60) { Some(DurationConfig::new(1 + r.below(40), 1 + r.below(40), 1 + r.below(40), 2 + r.below(40))) } else { None };
    let ratios = cfg.clone().map_or((24, 10, 5, 3), |c| (c.propose_ratio, c.prevote_ratio, c.precommit_ratio, c.brake_ratio));
    let clones = r.below(3);
    // the statuses sent: heights at or below the start height change nothing; before is sent before the instance runs
    let mut before: Vec<Status> = vec![];
    let mut after: Vec<Status> = vec![];
    let mut h = h0;
    for early in [true, false] {
        for _ in 0..r.below(3) {
            let nh = match r.below(4) { 0 => h.saturating_sub(r.below(2)), 1 => h0, _ => h + 1 + r.below(2) };
            h = h.max(nh);
            let me_in = r.chance(80);
            let s = Status { height: nh, interval: None, timer_config: None, authority_list: list_of(r, me_in) };
            if early { before.push(s) } else { after.push(s) }
        }
    }
    let base = interval * 400 + 5000;
    let inp = format!("address {:?}, list {:?}, start height {}, interval {}, timer config {:?}; before it runs {:?}; {} ms later {:?}; then a stop", me, list, h0, interval, cfg, before, base, after);
    rep.at(inp.clone());
    rep.case(&(n, inp.clone()));
    rep.sample(|| inp.clone());
    let p0 = PANICS.load(std::sync::atomic::Ordering::SeqCst);
    let (log, sends, ended, late, saved, loaded) = rt().block_on(async {
        let start = Instant::now();
        let rec = Arc::new(Rec { start, log: Mutex::new(vec![]), saved: Mutex::new(0), loaded: Mutex::new(0) });
        let cry = Arc::new(Cry::new(me.clone()));
        let inst = Arc::new(Overlord::new(me.clone(), Arc::clone(&rec), cry, Arc::clone(&rec)));
        let hs: Vec<_> = (0..clones + 1).map(|i| if i == 0 { inst.get_handler() } else { inst.get_handler().clone() }).collect();
        let mut sends = vec![];
        for (i, s) in before.iter().enumerate() {
            sends.push(hs[i % hs.len()].send_msg(Context::new(), OverlordMsg::RichStatus(s.clone())).is_ok());
        }
        let i2 = Arc::clone(&inst);
        let (l2, c2) = (list.clone(), cfg.clone());
        let run = tokio::spawn(async move { i2.run(h0, interval, l2, c2).await.is_ok() });
        tokio::time::sleep_until(start + Duration::from_millis(base)).await;
        let h2 = inst.get_handler();
        for s in &after {
            sends.push(h2.send_msg(Context::new(), OverlordMsg::RichStatus(s.clone())).is_ok());
        }
        tokio::time::sleep_until(start + Duration::from_millis(2 * base)).await;
        sends.push(h2.send_msg(Context::new(), OverlordMsg::Stop).is_ok());
        let ended = tokio::time::timeout(Duration::from_secs(1000), run).await.ok().map(|x| x.unwrap_or(false));
        let late: Vec<bool> = hs.iter().map(|x| x.send_msg(Context::new(), OverlordMsg::Stop).is_ok()).collect();
        let cut = rec.log.lock().unwrap().len();
        tokio::time::sleep(Duration::from_secs(100_000)).await;
        let log = rec.log.lock().unwrap().clone();
        if log.len() != cut {
            return (log, sends, Some(false), late, 0, 0);
        }
        let (a, b) = (*rec.saved.lock().unwrap(), *rec.loaded.lock().unwrap());
        (log, sends, ended, late, a, b)
    });
    let shown = || log.iter().take(12).map(|x| format!("{:?}", x)).collect::<Vec<_>>().join("; ");
    if PANICS.load(std::sync::atomic::Ordering::SeqCst) != p0 {
        rep.fail(&["C27", "C25"], "panic", format!("the instance panics: {:?}", LAST_PANIC.lock().unwrap()), inp);
        return;
    }
    if sends.iter().any(|x| !x) {
        rep.fail(&["C27"], "send", format!("a message sent while the instance lives is refused: {:?}", sends), inp);
        return;
    }
    match ended {
        Some(true) => (),
        _ => {
            rep.fail(&["C27", "C25"], "stop", format!("after a stop the instance goes on (ended: {:?})", ended), inp);
            return;
        }
    }
    if late.iter().any(|x| *x) {
        rep.fail(&["C27"], "late", "a message sent after the instance ended is accepted".into(), inp);
        return;
    }
    // expected: what the instance does at each place it starts a height
    let mut at: Vec<(u64, u64, Vec<Node>)> = vec![];
    let (mut ch, mut cl) = (h0, list.clone());
    if h0 > 0 && cl.iter().any(|x| x.address == me) {
        at.push((0, h0, cl.clone()));
    }
    for (t, ss) in [(0, &before), (base, &after)] {
        for s in ss {
            if s.height > ch {
                ch = s.height;
                cl = s.authority_list.clone();
                at.push((t, ch, cl.clone()));
            }
        }
    }
    let any_power = list.iter().any(|x| x.address == me) as u64;
    if loaded != any_power {
        rep.fail(&["C27", "C12"], "load", format!("the log is read {} times at start, expected {}", loaded, any_power), inp);
        return;
    }
    let _ = saved;
    for (i, (t, h, l)) in at.iter().enumerate() {
        // passed through at once
        let end = at.get(i + 1).map_or(2 * base, |x| x.0);
        if end == *t {
            continue;
        }
        let here: Vec<&(u64, Did)> = log.iter().filter(|x| x.0 >= *t && x.0 < end && !matches!(x.1, Did::Report(_))).collect();
        // what still belongs to an earlier height is not judged here
        let h_of = |d: &Did| match d {
            Did::GetBlock(x) | Did::Check(x, _) => *x,
            Did::Send(_, OverlordMsg::SignedProposal(p)) => p.proposal.height,
            Did::Send(_, OverlordMsg::SignedVote(v)) => v.vote.height,
            Did::Send(_, OverlordMsg::AggregatedVote(v)) => v.height,
            Did::Send(_, OverlordMsg::SignedChoke(c)) => c.choke.height,
            _ => u64::MAX,
        };
        let first: Vec<&&(u64, Did)> = here.iter().filter(|x| h_of(&x.1) == *h).collect();
        if !l.iter().any(|x| x.address == me) {
            if let Some(x) = first.first() {
                rep.fail(&["C27", "C18"], "outsider", format!("not a validator of height {}, the instance still does {:?}", h, x), inp);
                return;
            }
            continue;
        }
        let mut a = AuthorityManage::new();
        a.update(&mut l.clone());
        let leader = a.get_proposer(*h, 0).unwrap();
        let near = |x: u64, want: u64| x >= want && x <= want + 6;
        let alone = l.len() == 1 || weight(l, &[me.clone()]) * 3 > total(l) * 2;
        let lost = i == 0 && *h == h0;
        if leader == me && lost {
            // without its log it does not propose again; its votes stay with itself
            let due = t + (interval * ratios.0 / 10) + (interval * ratios.1 / 10) + (interval * ratios.2 / 10);
            let ok = first.first().map_or(false, |x| near(x.0, due) && matches!(&x.1, Did::Send(None, OverlordMsg::SignedChoke(c)) if c.address == me && c.choke.height == *h && c.choke.round == 0));
            if !ok && !alone {
                rep.fail(&["C27", "C12"], "relead", format!("at height {} from {} ms on the instance, leader without its log, is to choke at {} ms first; it did {}", h, t, due, shown()), inp);
                return;
            }
            continue;
        }
        if leader == me {
            // it proposes at once
            let ok = first.len() >= 2 && first[0].1 == Did::GetBlock(*h) && near(first[0].0, *t)
                && matches!(&first[1].1, Did::Send(None, OverlordMsg::SignedProposal(p)) if p.proposal.round == 0 && p.proposal.proposer == me && p.proposal.block_hash == mhash(&Bytes::from(format!("block{}", h))));
            if !ok {
                rep.fail(&["C27"], "lead", format!("the leader of height {} does not propose its block at {} ms; it did {}", h, t, shown()), inp);
                return;
            }
            continue;
        }
        let (d1, d2, d3, d4) = (interval * ratios.0 / 10, interval * ratios.1 / 10, interval * ratios.2 / 10, interval * ratios.3 / 10);
        let want = [(t + d1, VoteType::Prevote), (t + d1 + d2, VoteType::Precommit)];
        for (i, (due, ty)) in want.iter().enumerate() {
            let ok = first.get(i).map_or(false, |x| near(x.0, *due) && match &x.1 {
                Did::Send(Some(to), m) => *to == leader && vote(m).map_or(false, |(vt, vh, vr, bh, v, _)| vt == *ty && vh == *h && vr == 0 && bh.is_empty() && v == me),
                _ => false,
            });
            if !ok {
                rep.fail(if lost { &["C27", "C12"] } else { &["C27"] }, "vote", format!("at height {} from {} ms on (leader {:?}) the instance is to send its empty {:?} to the leader at {} ms; it did {}", h, t, leader, ty, due, shown()), inp);
                return;
            }
        }
        for (i, due) in [t + d1 + d2 + d3, t + d1 + d2 + d3 + d4].iter().enumerate() {
            let ok = first.get(2 + i).map_or(false, |x| near(x.0, *due) && match &x.1 {
                Did::Send(None, OverlordMsg::SignedChoke(c)) => c.address == me && c.choke.height == *h && c.choke.round == 0,
                _ => false,
            });
            // alone it is a quorum and skips the round
            if !ok && !(alone && i == 1) {
                rep.fail(&["C27"], "choke", format!("at height {} from {} ms on (leader {:?}) the instance is to choke at {} ms; it did {}", h, t, leader, due, shown()), inp);
                return;
            }
        }
    }
    if at.is_empty() && log.iter().any(|x| !matches!(x.1, Did::Report(_))) {
        rep.fail(&["C27"], "idle", format!("before it enters a height the instance does {}", shown()), inp);
    }
}
