//! Traces of the computed table itself.
use crate::util::*;
use common::prelude::ComputeCache;
use std::panic::{catch_unwind, AssertUnwindSafe};

const B: usize = 40;
/// the id of a digit: spread over several powers of two (a = 0), or (a * x + c) mod M
#[derive(Clone, Copy)]
struct Ids {
    a: usize,
    c: usize,
}
const M: usize = 262_139;
impl Ids {
    fn id(&self, x: usize) -> u32 {
        if self.a == 0 {
            ((x % 8) * 3 + (x / 8) * 65536) as u32
        } else {
            ((self.a * x + self.c) % M) as u32
        }
    }
    fn key(&self, i: usize) -> (u32, u32, u32) {
        (self.id(i / (B * B)), self.id((i / B) % B), self.id(i % B))
    }
    fn val(&self, i: usize, g: usize) -> u32 {
        self.id((i * 7 + g * 3) % B)
    }
}

pub fn run(out: &mut Out, seed: u64, rounds: usize, big: bool) {
    let tg = vec!["C17".to_string()];
    let mut rng = Rng(seed.wrapping_mul(77_777_777) + 5);
    for _ in 0..5 {
        rng.next();
    }
    out.intent(&tg, "computed table");
    let r = catch_unwind(AssertUnwindSafe(|| one(out, &mut rng, rounds, big)));
    if let Err(e) = r {
        let msg = e
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        out.line(&format!("{{\"e\":\"panic\",\"msg\":{}}}", jstr(&msg)));
    }
}
/// Keys that share a bucket with `a`, differing from it in the words of `dim` only.
fn collide(rng: &mut Rng, a: [u32; 3], dim: usize, want: usize) -> Vec<[u32; 3]> {
    let mut found = vec![];
    let mut c = ComputeCache::new();
    let mut n = 0;
    for _ in 0..150_000 {
        if n == 0 {
            c.clear();
            c.put(a[0], a[1], a[2], 1);
        }
        n = (n + 1) % 6000;
        let mut b = a;
        for w in 0..3 {
            if dim & (1 << w) != 0 {
                b[w] = rng.below(300_000) as u32;
            }
        }
        if b == a {
            continue;
        }
        c.put(b[0], b[1], b[2], 2);
        if c.get(a[0], a[1], a[2]) != Some(1) {
            found.push(b);
            if found.len() == want {
                break;
            }
            n = 0;
        }
    }
    found
}
pub fn burst(out: &mut Out, rng: &mut Rng) {
    let dim = 1 + rng.below(7);
    let mut a = [0u32; 3];
    for w in a.iter_mut() {
        let r = [3usize, 200, 300_000][rng.below(3)];
        *w = rng.below(r) as u32;
    }
    let mut ks = vec![a];
    ks.extend(collide(rng, a, dim, 3));
    let b = ks[rng.below(ks.len())];
    let dim = 1 << rng.below(3);
    ks.extend(collide(rng, b, dim, 1));
    ks.push([a[1], a[0], a[2]]);
    ks.push([a[0], a[2], a[1]]);
    let mut c = ComputeCache::new();
    let mut s = vec![];
    let mut v = 1;
    for _ in 0..40 {
        let k = ks[rng.below(ks.len())];
        match rng.below(10) {
            0 => {
                let t = rng.below(2);
                let d = if rng.chance(30) { rng.below(v) as u32 } else { k[rng.below(3)] };
                let mut live = vec![true; 300_001];
                live[d as usize] = false;
                if t == 1 {
                    c.retain_live3(&live)
                } else {
                    c.retain_live(&live)
                }
                s.push(format!("[2,{},{},0,{}]", d, t, c.len()));
            }
            1..=5 => {
                c.put(k[0], k[1], k[2], v as u32);
                s.push(format!("[0,{},{},{},{}]", k[0], k[1], k[2], v));
                v += 1;
            }
            _ => {
                let r = c.get(k[0], k[1], k[2]).map_or(-1, |x| x as i64);
                s.push(format!("[1,{},{},{},{}]", k[0], k[1], k[2], r));
            }
        }
    }
    out.line(&format!("{{\"e\":\"burst\",\"s\":[{}]}}", s.join(",")));
}
fn audit(out: &mut Out, c: &ComputeCache, ids: Ids) {
    let mut got = vec![];
    for i in 0..B * B * B {
        let (a, b, d) = ids.key(i);
        got.push(match c.get(a, b, d) {
            Some(v) => v.to_string(),
            None => "-1".into(),
        });
    }
    out.line(&format!(
        "{{\"e\":\"audit\",\"got\":[{}],\"len\":{},\"em\":{}}}",
        got.join(","),
        c.len(),
        c.is_empty() as i32
    ));
}
fn one(out: &mut Out, rng: &mut Rng, rounds: usize, big: bool) {
    let ids = match rng.below(4) {
        0 => Ids { a: 0, c: 0 },
        1 => Ids { a: 1, c: rng.below(50) },
        _ => Ids { a: 1 + rng.below(20_000), c: rng.below(1000) },
    };
    let n = B * B * B;
    let mut c = ComputeCache::new();
    out.line(&format!("{{\"e\":\"new\",\"ia\":{},\"ic\":{},\"len\":{},\"em\":{}}}", ids.a, ids.c, c.len(), c.is_empty() as i32));
    let mut g = 0;
    let mut last: Option<(usize, usize, usize)> = None;
    for _ in 0..20 {
        burst(out, rng);
    }
    for _ in 0..rounds {
        match rng.below(10) {
            0 if !big => {
                c.clear();
                out.line(&format!("{{\"e\":\"clear\",\"len\":{},\"em\":{}}}", c.len(), c.is_empty() as i32));
            }
            1 | 2 => {
                let three = rng.chance(50);
                let k = 1 + rng.below(if big { 2 } else { 4 });
                let dead: Vec<usize> = (0..k).map(|_| rng.below(B)).collect();
                let mut live = vec![true; 65536 * 5 + 64];
                for &d in &dead {
                    live[ids.id(d) as usize] = false;
                }
                if three {
                    c.retain_live3(&live)
                } else {
                    c.retain_live(&live)
                }
                out.line(&format!(
                    "{{\"e\":\"retain\",\"dead\":{},\"three\":{},\"len\":{}}}",
                    jarr(&dead),
                    three as i32,
                    c.len()
                ));
            }
            _ => {
                g += 1;
                let (lo, hi, st) = match last {
                    // store the same keys again
                    Some(x) if rng.chance(20) => x,
                    _ => {
                        let m = if big { n / 2 + rng.below(n / 2) } else { *rng.pick(&[30usize, 3000, 9000, 16000]) };
                        let st = 1 + rng.below(3);
                        let lo = rng.below(n - m.min(n - 1));
                        (lo, (lo + m * st).min(n), st)
                    }
                };
                last = Some((lo, hi, st));
                let (mut dmin, mut dmax) = (0i64, 0i64);
                // storing a key again at once: its entry is there, so the length stays
                let twice = rng.chance(60);
                let (mut d2min, mut d2max) = (0i64, 0i64);
                let mut first = true;
                let mut i = lo;
                while i < hi {
                    let before = c.len() as i64;
                    let (a, b, d) = ids.key(i);
                    c.put(a, b, d, ids.val(i, g));
                    let x = c.len() as i64 - before;
                    if first {
                        dmin = x;
                        dmax = x;
                        first = false;
                    }
                    dmin = dmin.min(x);
                    dmax = dmax.max(x);
                    if twice {
                        let before = c.len() as i64;
                        c.put(a, b, d, ids.val(i, g));
                        let x = c.len() as i64 - before;
                        d2min = d2min.min(x);
                        d2max = d2max.max(x);
                    }
                    i += st;
                }
                out.line(&format!(
                    "{{\"e\":\"put\",\"lo\":{},\"hi\":{},\"st\":{},\"g\":{},\"dmin\":{},\"dmax\":{},\"d2min\":{},\"d2max\":{},\"len\":{}}}",
                    lo,
                    hi,
                    st,
                    g,
                    dmin,
                    dmax,
                    d2min,
                    d2max,
                    c.len()
                ));
            }
        }
        if rng.chance(70) {
            audit(out, &c, ids);
        }
    }
    audit(out, &c, ids);
}
