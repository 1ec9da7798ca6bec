//! C01 quorum, C04 bitmap, C05 election, C18 installing a list
use crate::mock::*;
use crate::rng::*;
use bytes::Bytes;
use overlord::types::*;
use overlord::verif::AuthorityManage;

fn addr(r: &mut Rng) -> Bytes {
    let n = *r.pick(&[1usize, 2, 3, 4, 20, 32]);
    Bytes::from(r.bytes(n))
}
pub fn list(r: &mut Rng, max: u64) -> Vec<Node> {
    let n = match r.below(10) {
        0 => r.below(3),
        1..=5 => r.below(9),
        6 => 7 + r.below(4),
        7 => 15 + r.below(4),
        _ => r.below(max),
    };
    let style = r.below(7);
    let mut v: Vec<Node> = vec![];
    while v.len() < n as usize {
        let a = addr(r);
        if v.iter().any(|x| x.address == a) {
            continue;
        }
        let w = |r: &mut Rng| match style {
            0 => 1,
            1 => 3,
            2 => r.below(5) as u32,
            3 => r.next() as u32,
            4 => u32::MAX - r.below(2) as u32,
            5 => {
                if r.chance(20) {
                    1 << r.below(31)
                } else {
                    r.below(3) as u32
                }
            }
            _ => (1 << 20) + r.below(3) as u32,
        };
        let (p, q) = (w(r), w(r));
        v.push(node(&a, p, q));
    }
    v
}
fn bits(r: &mut Rng, n: usize) -> Vec<u8> {
    let exact = (n + 7) / 8;
    let l = match r.below(6) {
        0 => r.below(exact as u64 + 4) as usize,
        1 => exact + 1,
        _ => exact,
    };
    match r.below(4) {
        0 => vec![0xff; l],
        1 => r.bytes(l),
        2 => {
            let mut b = r.bytes(l);
            for x in b.iter_mut() {
                *x |= r.next() as u8;
            }
            b
        }
        _ => {
            let mut b = vec![0xff; l];
            for _ in 0..r.below(4) {
                if l > 0 {
                    let i = r.below(l as u64) as usize;
                    b[i] &= !(1 << r.below(8));
                }
            }
            b
        }
    }
}

pub fn run(rep: &std::sync::Arc<Rep>) {
    let mut r = Rng::new(rep.seed ^ 0xA17);
    let rl = cfg!(feature = "random_leader");
    rep.rule("authority lists of 0..70 validators (seeded weights incl. 0, u32::MAX, exact two-thirds splits), shuffled orders, bitmaps of right, shorter and longer lengths, all heights/rounds classes; oracle: sums over u128 and membership");
    let mut n = 0u64;
    while rep.go(12.0, 120.0) {
        n += 1;
        let mut l = list(&mut r, 70);
        let mut l2 = l.clone();
        r.shuffle(&mut l2);
        let desc = |l: &[Node]| l.iter().map(|n| format!("{:02x?}/{}/{}", &n.address[..], n.propose_weight, n.vote_weight)).collect::<Vec<_>>().join(" ");
        rep.at(format!("list {}", desc(&l)));
        let res = guarded(|| {
            let mut m = AuthorityManage::new();
            if r.chance(50) {
                let mut old = list(&mut r, 20);
                m.update(&mut old);
            }
            let orig = l.clone();
            m.update(&mut l);
            let mut m2 = AuthorityManage::new();
            m2.update(&mut l2);
            let s = sorted(&orig);
            let (a, b) = (m.get_address_ref().clone(), s.iter().map(|n| n.address.clone()).collect::<Vec<_>>());
            if a != b || m.len() != s.len() {
                rep.fail(&["C01", "C04", "C05", "C18"], "order", format!("the installed list is {:?}, expected {:?}", a, b), desc(&orig));
            }
            if m != m2 {
                rep.fail(&["C01", "C05", "C18"], "perm", "the same list in another order gives another authority".into(), desc(&orig));
            }
            if m.get_vote_weight_sum() as u128 != total(&orig) {
                rep.fail(&["C01", "C18", "C03"], "sum", format!("total weight {} expected {}", m.get_vote_weight_sum(), total(&orig)), desc(&orig));
            }
            for x in &orig {
                if m.get_vote_weight(&x.address).ok() != Some(&x.vote_weight) || !m.contains(&x.address) {
                    rep.fail(&["C01", "C18", "C03"], "weight", format!("weight of {:?} wrong", x.address), desc(&orig));
                }
            }
            let stranger = Bytes::from(vec![7u8; 5]);
            if m.contains(&stranger) || m.get_vote_weight(&stranger).is_ok() {
                rep.fail(&["C02", "C03", "C17", "C18"], "stranger", "an address outside the list is contained".into(), desc(&orig));
            }
            for _ in 0..12 {
                let b = bits(&mut r, orig.len());
                rep.case(&(n, b.clone()));
                let want = unbitmap(&orig, &b);
                let q = quorum(&orig, &want);
                let inp = || format!("{} bitmap {:02x?}", desc(&orig), b);
                match guarded(|| (m.is_above_threshold(&b), m.get_voters(&b), overlord::extract_voters(&mut orig.clone(), &Bytes::from(b.clone())))) {
                    Err(p) => rep.fail(&["C01"], "panic", format!("panic: {}", p), inp()),
                    Ok((t, v, e)) => {
                        if t.as_ref().ok() != Some(&q) {
                            rep.fail(if t.as_ref().ok() == Some(&true) { &["C01", "C26"] } else { &["C01"] }, "threshold", format!("is_above_threshold gave {:?}, weight {} of {}", t, weight(&orig, &want), total(&orig)), inp());
                        }
                        let mut v = v.unwrap_or_default();
                        let mut e = e.unwrap_or_default();
                        if v != want || e != want {
                            v.sort();
                            e.sort();
                            rep.fail(&["C04", "C01"], "voters", format!("get_voters {:?} extract_voters {:?} expected {:?}", v, e, want), inp());
                        }
                    }
                }
                // padding bits select nobody
                let mut b2 = b.clone();
                let k = orig.len();
                for i in k..(b2.len() * 8) {
                    b2[i / 8] ^= 0x80 >> (i % 8);
                }
                if m.is_above_threshold(&b2).ok() != m.is_above_threshold(&b).ok() || m.get_voters(&b2).ok() != m.get_voters(&b).ok() {
                    rep.fail(&["C01", "C04"], "padding", "bits beyond the list matter".into(), inp());
                }
            }
            // election
            let psum: u128 = orig.iter().map(|n| n.propose_weight as u128).sum();
            if !orig.is_empty() && (!rl || psum > 0) {
                for _ in 0..6 {
                    let v = [0u64, 1, 2, 3, u64::MAX, u64::MAX - 1, 1 << 63, 1 << 32, r.next(), r.below(1000)];
                    let (h, ro) = (*r.pick(&v), *r.pick(&v));
                    rep.case(&(n, h, ro));
                    rep.at(format!("leader of h {} r {} list {}", h, ro, desc(&orig)));
                    let inp = || format!("height {} round {} list {} random_leader {}", h, ro, desc(&orig), rl);
                    match guarded(|| (m.get_proposer(h, ro), m2.get_proposer(h, ro), overlord::get_leader(h, ro, orig.clone()), overlord::get_leader(h, ro, l2.clone()))) {
                        Err(p) => rep.fail(&["C05"], "panic", format!("panic: {}", p), inp()),
                        Ok((a, b, c, d)) => {
                            let a1 = a.clone().unwrap_or_default();
                            if a.is_err() || b.is_err() || a1 != b.unwrap_or_default() || a1 != c || c != d || !b_contains(&orig, &a1) {
                                rep.fail(&["C05"], "leader", format!("get_proposer {:?}, get_leader {:?} / {:?}", a, c, d), inp());
                            }
                        }
                    }
                }
            }
            rep.sample(|| desc(&orig));
        });
        if let Err(p) = res {
            rep.fail(&["C01", "C05", "C18"], "panic", format!("panic: {}", p), desc(&l));
        }
    }
}
fn b_contains(l: &[Node], a: &Bytes) -> bool {
    l.iter().any(|n| &n.address == a)
}
