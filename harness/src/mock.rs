use async_trait::async_trait;
use bytes::Bytes;
use creep::Context;
use overlord::types::*;
use overlord::{Codec, Consensus, Crypto, Wal};
use std::collections::HashMap;
use std::error::Error;
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Blk(pub Bytes);
#[derive(Debug)]
pub struct E(pub &'static str);
impl std::fmt::Display for E {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(self.0)
    }
}
impl Error for E {}
pub fn err<T>(s: &'static str) -> Result<T, Box<dyn Error + Send>> {
    Err(Box::new(E(s)))
}
impl Codec for Blk {
    fn encode(&self) -> Result<Bytes, Box<dyn Error + Send>> {
        Ok(self.0.clone())
    }
    fn decode(d: Bytes) -> Result<Self, Box<dyn Error + Send>> {
        if d.first() == Some(&b'!') {
            return err("undecodable block");
        }
        Ok(Blk(d))
    }
}

/// an injective stand-in: a signature says who signed what
pub fn mhash(m: &[u8]) -> Bytes {
    let mut v = b"H".to_vec();
    v.extend_from_slice(m);
    Bytes::from(v)
}
pub fn msign(addr: &Bytes, hash: &Bytes) -> Bytes {
    let mut v = b"S".to_vec();
    // signatures do not sort like their signers
    v.push(addr.iter().fold(0u8, |a, b| a.wrapping_mul(31).wrapping_add(b.wrapping_mul(167))));
    v.extend_from_slice(&(addr.len() as u32).to_be_bytes());
    v.extend_from_slice(addr);
    v.extend_from_slice(hash);
    Bytes::from(v)
}
pub fn magg(voters: &[Bytes], hash: &Bytes) -> Bytes {
    let mut vs = voters.to_vec();
    vs.sort();
    let mut v = b"A".to_vec();
    v.extend_from_slice(&(vs.len() as u32).to_be_bytes());
    for x in vs {
        v.extend_from_slice(&(x.len() as u32).to_be_bytes());
        v.extend_from_slice(&x);
    }
    v.extend_from_slice(hash);
    Bytes::from(v)
}
pub struct Cry {
    pub addr: Bytes,
    pub fail_sign: Mutex<bool>,
    pub asked: Mutex<Vec<String>>,
}
impl Cry {
    pub fn new(addr: Bytes) -> Self {
        Cry { addr, fail_sign: Mutex::new(false), asked: Mutex::new(vec![]) }
    }
}
impl Crypto for Cry {
    fn hash(&self, m: Bytes) -> Hash {
        mhash(&m)
    }
    fn sign(&self, h: Hash) -> Result<Signature, Box<dyn Error + Send>> {
        if *self.fail_sign.lock().unwrap() {
            return err("sign");
        }
        Ok(msign(&self.addr, &h))
    }
    fn aggregate_signatures(&self, s: Vec<Signature>, v: Vec<Address>) -> Result<Signature, Box<dyn Error + Send>> {
        if s.len() != v.len() || s.is_empty() {
            return Ok(Bytes::from_static(b"garbage-len"));
        }
        // each signature must be its own voter's, over one common hash
        let pre = msign(&v[0], &Bytes::new()).len();
        if s[0].len() < pre {
            return Ok(Bytes::from_static(b"garbage-short"));
        }
        let h = s[0].slice(pre..);
        for (a, b) in s.iter().zip(v.iter()) {
            if *a != msign(b, &h) {
                return Ok(Bytes::from_static(b"garbage-pair"));
            }
        }
        Ok(magg(&v, &h))
    }
    fn verify_signature(&self, s: Signature, h: Hash, v: Address) -> Result<(), Box<dyn Error + Send>> {
        if s == msign(&v, &h) {
            Ok(())
        } else {
            err("bad signature")
        }
    }
    fn verify_aggregated_signature(&self, s: Signature, h: Hash, v: Vec<Address>) -> Result<(), Box<dyn Error + Send>> {
        if s == magg(&v, &h) {
            Ok(())
        } else {
            err("bad aggregated signature")
        }
    }
}

#[derive(Clone, Debug)]
pub enum Out {
    GetBlock(u64),
    Check(u64, Bytes, Blk),
    Checked(u64, Bytes, Blk, bool),
    Commit(u64, Commit<Blk>),
    Broadcast(OverlordMsg<Blk>),
    Transmit(Address, OverlordMsg<Blk>),
    Save(Bytes, bool),
    Report,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
    Pass,
    Fail,
    Hold,
}

#[derive(Default)]
pub struct AppState {
    pub log: Vec<Out>,
    pub mode: HashMap<Bytes, Mode>, // by block content
    pub holds: Vec<(u64, Bytes, Blk, futures::channel::oneshot::Sender<bool>)>,
    pub next_block: Option<(Blk, Bytes)>,
    pub next_status: Option<Status>,
    pub net_fail: bool,
    pub wal_ok: Option<u32>, // saves that succeed before the log fails,
    pub wal: Option<Bytes>,
    pub wal_load_fail: bool,
    pub fresh: u64,
    pub hold_all: bool,
}
#[derive(Clone, Default)]
pub struct App(pub Arc<Mutex<AppState>>);

#[async_trait]
impl Consensus<Blk> for App {
    async fn get_block(&self, _c: Context, h: u64) -> Result<(Blk, Hash), Box<dyn Error + Send>> {
        let mut s = self.0.lock().unwrap();
        s.log.push(Out::GetBlock(h));
        match s.next_block.clone() {
            Some(x) => Ok(x),
            None => err("no block"),
        }
    }
    async fn check_block(&self, _c: Context, h: u64, hash: Hash, b: Blk) -> Result<(), Box<dyn Error + Send>> {
        let rx = {
            let mut s = self.0.lock().unwrap();
            s.log.push(Out::Check(h, hash.clone(), b.clone()));
            match s.mode.get(&b.0).cloned().unwrap_or(if s.hold_all { Mode::Hold } else { Mode::Pass }) {
                Mode::Pass => None,
                Mode::Fail => {
                    s.log.push(Out::Checked(h, hash, b, false));
                    return err("check");
                }
                Mode::Hold => {
                    let (tx, rx) = futures::channel::oneshot::channel();
                    s.holds.push((h, hash.clone(), b.clone(), tx));
                    Some(rx)
                }
            }
        };
        let ok = match rx {
            None => true,
            Some(rx) => rx.await.unwrap_or(false),
        };
        self.0.lock().unwrap().log.push(Out::Checked(h, hash, b, ok));
        if ok {
            Ok(())
        } else {
            err("check")
        }
    }
    async fn commit(&self, _c: Context, h: u64, c: Commit<Blk>) -> Result<Status, Box<dyn Error + Send>> {
        let mut s = self.0.lock().unwrap();
        s.log.push(Out::Commit(h, c));
        match s.next_status.clone() {
            Some(x) => Ok(x),
            None => err("commit"),
        }
    }
    async fn get_authority_list(&self, _c: Context, _h: u64) -> Result<Vec<Node>, Box<dyn Error + Send>> {
        Ok(vec![])
    }
    async fn broadcast_to_other(&self, _c: Context, m: OverlordMsg<Blk>) -> Result<(), Box<dyn Error + Send>> {
        let mut s = self.0.lock().unwrap();
        s.log.push(Out::Broadcast(m));
        if s.net_fail {
            return err("net");
        }
        Ok(())
    }
    async fn transmit_to_relayer(&self, _c: Context, a: Address, m: OverlordMsg<Blk>) -> Result<(), Box<dyn Error + Send>> {
        let mut s = self.0.lock().unwrap();
        s.log.push(Out::Transmit(a, m));
        if s.net_fail {
            return err("net");
        }
        Ok(())
    }
    fn report_error(&self, _c: Context, _e: overlord::error::ConsensusError) {
        self.0.lock().unwrap().log.push(Out::Report);
    }
    fn report_view_change(&self, _c: Context, _h: u64, _r: u64, _w: ViewChangeReason) {}
}
#[async_trait]
impl Wal for App {
    async fn save(&self, i: Bytes) -> Result<(), Box<dyn Error + Send>> {
        let mut s = self.0.lock().unwrap();
        let f = s.wal_ok == Some(0);
        s.wal_ok = s.wal_ok.map(|n| n.saturating_sub(1));
        s.log.push(Out::Save(i.clone(), !f));
        if f {
            return err("wal");
        }
        s.wal = Some(i);
        Ok(())
    }
    async fn load(&self) -> Result<Option<Bytes>, Box<dyn Error + Send>> {
        let s = self.0.lock().unwrap();
        if s.wal_load_fail {
            return err("wal load");
        }
        Ok(s.wal.clone())
    }
}

pub fn rt() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap()
}
/// lets every runnable task run until nothing is runnable
pub async fn idle() {
    tokio::time::sleep(std::time::Duration::from_secs(10)).await;
}

// ---- an independent statement of the election and the quorum rule
pub fn sorted(l: &[Node]) -> Vec<Node> {
    let mut v = l.to_vec();
    v.sort_by(|a, b| a.address.cmp(&b.address));
    v
}
pub fn weight(l: &[Node], voters: &[Bytes]) -> u128 {
    l.iter().filter(|n| voters.contains(&n.address)).map(|n| n.vote_weight as u128).sum()
}
pub fn total(l: &[Node]) -> u128 {
    l.iter().map(|n| n.vote_weight as u128).sum()
}
pub fn quorum(l: &[Node], voters: &[Bytes]) -> bool {
    weight(l, voters) * 3 > total(l) * 2
}
pub fn bitmap(l: &[Node], voters: &[Bytes]) -> Bytes {
    let s = sorted(l);
    let mut v = vec![0u8; (s.len() + 7) / 8];
    for (i, n) in s.iter().enumerate() {
        if voters.contains(&n.address) {
            v[i / 8] |= 0x80 >> (i % 8);
        }
    }
    Bytes::from(v)
}
pub fn unbitmap(l: &[Node], b: &[u8]) -> Vec<Bytes> {
    sorted(l).iter().enumerate().filter(|(i, _)| i / 8 < b.len() && b[i / 8] & (0x80 >> (i % 8)) != 0).map(|(_, n)| n.address.clone()).collect()
}
pub fn node(a: &Bytes, p: u32, v: u32) -> Node {
    let mut n = Node::new(a.clone());
    n.set_propose_weight(p);
    n.set_vote_weight(v);
    n
}
