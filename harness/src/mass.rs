//! Node stores of more than a million nodes: every request for a node is checked against the
//! canonicity it asks for, in aggregate (one event for all of them).
use crate::gen::*;
use crate::sys::*;
use crate::util::*;
use std::collections::{HashMap, HashSet};

pub fn main_forest(kind: &str, rng: &mut Rng) -> F {
    match kind {
        "bdd" | "mdd" => F::B,
        "zdd" => F::Z,
        "mtmdd" => F::V,
        "zmdd" => F::Y,
        _ => {
            if rng.chance(50) {
                F::B
            } else {
                F::V
            }
        }
    }
}
/// what a request must return without making a node, if anything
fn reduced(f: F, ch: &[usize], null: usize) -> Option<usize> {
    if f.zs() {
        if ch[1..].iter().all(|&x| x == null) {
            return Some(ch[0]);
        }
    } else if ch[1..].iter().all(|&x| x == ch[0]) {
        return Some(ch[0]);
    }
    None
}
pub struct Mass {
    /// (level, children) of every node made, and its id
    pub made: Vec<(u32, [u32; 3], u32)>,
    pub map: HashMap<(u32, [u32; 3]), u32>,
    pub terms: Vec<usize>,
    pub null: usize,
    pub again: usize,
    pub red: usize,
}
pub fn make(s: &mut Sys, f: F, hdr: &[usize], k: &[usize], n: usize, rng: &mut Rng) -> Mass {
    let mut m = Mass { made: vec![], map: HashMap::new(), terms: vec![], null: 0, again: 0, red: 0 };
    m.null = s.constant(f, f.null()).id();
    let cs: Vec<i64> = match f {
        F::B | F::Z => vec![0, 1],
        F::V => vec![0, 1, 2, -3, UNDET],
        F::Y => vec![UNDET, 0, 1],
    };
    for c in cs {
        m.terms.push(s.constant(f, c).id());
    }
    let per = n / hdr.len() + 1;
    let mut prev: Vec<[u32; 3]> = vec![];
    for l in 0..hdr.len() {
        let lower = m.made.len();
        let mut cur: Vec<[u32; 3]> = vec![];
        let pick = |rng: &mut Rng, m: &Mass| -> usize {
            if lower == 0 || rng.chance(25) {
                *rng.pick(&m.terms)
            } else {
                m.made[rng.below(lower)].2 as usize
            }
        };
        let low: HashSet<u32> = if rng.chance(50) { m.made.iter().map(|x| x.2).collect() } else { HashSet::new() };
        for _ in 0..per {
            let mut ch = [0u32; 3];
            for c in ch[..k[l]].iter_mut() {
                *c = pick(rng, &m) as u32;
            }
            let mut todo = vec![ch];
            match rng.below(8) {
                // the same children in another order
                0 => {
                    let mut c = ch;
                    c[..k[l]].rotate_left(1);
                    todo.push(c);
                }
                // the same children at another level
                1 | 2 if !prev.is_empty() && k[l] == k[l - 1] => todo.push(*rng.pick(&prev)),
                // a child whose id differs in one bit
                3 | 4 if !low.is_empty() => {
                    let mut c = ch;
                    let j = rng.below(k[l]);
                    c[j] ^= 1 << rng.below(21);
                    if low.contains(&c[j]) {
                        todo.push(c);
                    }
                }
                _ => (),
            }
            for c in todo {
                let ids: Vec<usize> = c[..k[l]].iter().map(|&x| x as usize).collect();
                let hs: Vec<Hd> = ids.iter().map(|&i| Hd::Core(f, i)).collect();
                let rf: Vec<&Hd> = hs.iter().collect();
                let r = s.create(hdr[l], &rf).id();
                if let Some(x) = reduced(f, &ids, m.null) {
                    m.red += (x != r) as usize;
                    continue;
                }
                cur.push(c);
                match m.map.insert((l as u32, c), r as u32) {
                    Some(o) => m.again += (o as usize != r) as usize,
                    None => m.made.push((l as u32, c, r as u32)),
                }
            }
        }
        prev = cur;
    }
    m
}
fn differs(s: &Sys, f: F, x: &(u32, [u32; 3], u32), k: &[usize]) -> bool {
    match s.raw(f, x.2 as usize) {
        Raw::N(l, c) => l != x.0 as usize || c.len() != k[l] || c.iter().zip(&x.1).any(|(&a, &b)| a != b as usize),
        _ => true,
    }
}
pub fn run(kind: &str, seed: u64, n: usize, out: &mut Out, cfg: &Cfg) {
    let mut rng = Rng(seed.wrapping_mul(1_000_003) + 77);
    for _ in 0..5 {
        rng.next();
    }
    let nl = cfg.or("levels", 30) as usize;
    let two = matches!(kind, "bdd" | "zdd");
    let k: Vec<usize> = (0..nl).map(|_| if two || rng.chance(80) { 2 } else { 3 }).collect();
    let sd = rng.next();
    let mut c = Ctx::new(kind, vec![2], vec!["v0".into()], None, sd, 1, out, cfg);
    c.core_order(0);
    c.reset();
    let tg = tagv(&["C02", "C03", "C04", "C20"]);
    let f = main_forest(kind, &mut rng);
    let lines = c.call(tg, "a million nodes", |s| {
        let mut lines = vec![];
        let mut hdr = vec![s.header(0, "w0", k[0])];
        for l in 1..nl {
            hdr.push(s.header(l, &format!("w{}", l), k[l]));
        }
        let mut m = make(s, f, &hdr, &k, n, &mut rng);
        let live = |s: &Sys| s.st().iter().find(|x| x.0 == f).map(|x| (x.1, x.2)).unwrap();
        // (live count, store length); the numbers are of the forest f only
        let ids = |m: &Mass| m.made.iter().map(|x| x.2 as usize).chain(m.terms.iter().cloned()).collect::<HashSet<_>>().len();
        let nt = m.terms.iter().collect::<HashSet<_>>().len();
        let perm = {
            // terminals a fresh manager holds, and the ones asked for
            let fresh = Sys::new(&s.kind, 1);
            let base = fresh.st().iter().find(|x| x.0 == f).unwrap().1;
            let mut fr = fresh;
            for cst in match f {
                F::B | F::Z => vec![0, 1],
                F::V => vec![0, 1, 2, -3, UNDET],
                F::Y => vec![UNDET, 0, 1],
            } {
                fr.constant(f, cst);
            }
            fr.st().iter().find(|x| x.0 == f).unwrap().1.max(base)
        };
        let bad = m.made.iter().filter(|x| differs(s, f, x, &k)).count();
        let (lv, len0) = live(s);
        lines.push(format!(
            "{{\"e\":\"mass\",\"f\":\"{}\",\"req\":{},\"nt\":{},\"ids\":{},\"again\":{},\"red\":{},\"bad\":{},\"perm\":{},\"live\":{},\"grew\":0}}",
            f.s(), m.made.len(), nt, ids(&m), m.again, m.red, bad, perm, lv
        ));
        for round in 0..2 {
            // a collection that keeps what some roots reach
            let nr = 1 + rng.below(if round == 0 { 400 } else { 20 });
            let at: HashMap<u32, usize> = m.made.iter().enumerate().map(|(i, x)| (x.2, i)).collect();
            let mut stack: Vec<usize> = (0..nr).map(|_| rng.below(m.made.len())).collect();
            let roots: Vec<Hd> = stack.iter().map(|&i| Hd::Core(f, m.made[i].2 as usize)).collect();
            let mut keep = vec![false; m.made.len()];
            while let Some(i) = stack.pop() {
                if keep[i] {
                    continue;
                }
                keep[i] = true;
                for &x in &m.made[i].1[..k[m.made[i].0 as usize]] {
                    if let Some(&j) = at.get(&x) {
                        stack.push(j);
                    }
                }
            }
            let kr: Vec<&Hd> = roots.iter().collect();
            s.gc(&[f], &kr);
            let all = std::mem::take(&mut m.made);
            let mut gone = vec![];
            for (i, x) in all.into_iter().enumerate() {
                if keep[i] {
                    m.made.push(x);
                } else {
                    gone.push(x);
                }
            }
            let (lv, _) = live(s);
            let bad = m.made.iter().filter(|x| differs(s, f, x, &k)).count();
            lines.push(format!(
                "{{\"e\":\"mass\",\"f\":\"{}\",\"req\":{},\"nt\":{},\"ids\":{},\"again\":0,\"red\":0,\"bad\":{},\"perm\":{},\"live\":{},\"grew\":0}}",
                f.s(), m.made.len(), nt, ids(&m), bad, perm, lv
            ));
            // the survivors asked for again, and new nodes in the reclaimed slots
            let mut again = 0;
            m.map = HashMap::new();
            for x in &m.made {
                let hs: Vec<Hd> = x.1[..k[x.0 as usize]].iter().map(|&i| Hd::Core(f, i as usize)).collect();
                let rf: Vec<&Hd> = hs.iter().collect();
                again += (s.create(hdr[x.0 as usize], &rf).id() != x.2 as usize) as usize;
                m.map.insert((x.0, x.1), x.2);
            }
            let alive: HashSet<u32> = m.made.iter().map(|x| x.2).chain(m.terms.iter().map(|&t| t as u32)).collect();
            let mut red = 0;
            for x in gone {
                if x.1[..k[x.0 as usize]].iter().all(|y| alive.contains(y)) {
                    let hs: Vec<Hd> = x.1[..k[x.0 as usize]].iter().map(|&i| Hd::Core(f, i as usize)).collect();
                    let rf: Vec<&Hd> = hs.iter().collect();
                    let r = s.create(hdr[x.0 as usize], &rf).id();
                    match m.map.insert((x.0, x.1), r as u32) {
                        Some(o) => again += (o as usize != r) as usize,
                        None => m.made.push((x.0, x.1, r as u32)),
                    }
                }
            }
            // children of one level below, so that the reclaimed slots are taken quickly
            let tops: Vec<u32> = m.made.iter().filter(|x| (x.0 as usize) < nl - 1).map(|x| x.2).collect();
            if !tops.is_empty() {
                let want = (n / 3).min(len0.saturating_sub(m.made.len() + perm + 10));
                let l = nl - 1;
                for _ in 0..want {
                    let mut c = [0u32; 3];
                    for q in c[..k[l]].iter_mut() {
                        *q = *rng.pick(&tops);
                    }
                    let ids: Vec<usize> = c[..k[l]].iter().map(|&x| x as usize).collect();
                    let hs: Vec<Hd> = ids.iter().map(|&i| Hd::Core(f, i)).collect();
                    let rf: Vec<&Hd> = hs.iter().collect();
                    let r = s.create(hdr[l], &rf).id();
                    if let Some(x) = reduced(f, &ids, m.null) {
                        red += (x != r) as usize;
                        continue;
                    }
                    match m.map.insert((l as u32, c), r as u32) {
                        Some(o) => again += (o as usize != r) as usize,
                        None => m.made.push((l as u32, c, r as u32)),
                    }
                }
            }
            let bad = m.made.iter().filter(|x| differs(s, f, x, &k)).count();
            let (lv, len) = live(s);
            lines.push(format!(
                "{{\"e\":\"mass\",\"f\":\"{}\",\"req\":{},\"nt\":{},\"ids\":{},\"again\":{},\"red\":{},\"bad\":{},\"perm\":{},\"live\":{},\"grew\":{}}}",
                f.s(), m.made.len(), nt, ids(&m), again, red, bad, perm, lv, len.saturating_sub(len0)
            ));
        }
        lines
    });
    for l in lines.unwrap_or_default() {
        c.out.line(&l);
    }
}
