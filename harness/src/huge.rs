//! Diagrams with tens of thousands of nodes, observed at sampled assignments.
use crate::gen::*;
use crate::sys::*;
use crate::util::*;
use std::collections::HashMap;

pub struct Huge {
    /// weight of each variable, modulo m
    pub w: Vec<usize>,
    pub m: usize,
}

pub fn run(kind: &str, seed: u64, m: usize, nv: usize, out: &mut Out, cfg: &Cfg) {
    let mut rng = Rng(seed.wrapping_mul(1_000_003) + 99);
    for _ in 0..5 {
        rng.next();
    }
    // the computed table loses entries near its load limit; with a high branching degree an operation
    // on tens of levels then recomputes without end, so all variables are binary here
    let ar: Vec<usize> = vec![2; nv];
    let names: Vec<String> = (0..nv).map(|i| format!("v{}", i)).collect();
    let np = cfg.or("points", 150) as usize;
    let pts: Vec<Vec<usize>> = (0..np)
        .map(|i| {
            // sparse, dense and balanced assignments
            let d = [20usize, 50, 80][i % 3];
            ar.iter().map(|&k| if rng.chance(d) { 1 + rng.below(k - 1) } else { 0 }).collect()
        })
        .collect();
    let g = Huge { w: (0..nv).map(|_| 1 + rng.below(m - 1)).collect(), m };
    let sd = rng.next();
    let mut c = Ctx::new(kind, ar, names, Some(pts), sd, 1, out, cfg);
    let wrap = c.sys.wrapper();
    if !wrap {
        c.core_order(0);
        // garbage first, so that the diagrams have ids beyond a million
        let fill = cfg.get("fill") as usize;
        if fill > 0 {
            for f in c.sys.forests() {
                let k: Vec<usize> = c.ord.iter().map(|o| o.k).collect();
                let mut r = Rng(c.rng.next());
                let hdr = c.hdr.clone();
                if c.call(tagv(&["C20"]), "garbage", |s| crate::mass::make(s, f, &hdr, &k, fill, &mut r).made.len()).is_none() {
                    return;
                }
            }
        }
    }
    c.reset();
    if wrap {
        let mut all: Vec<usize> = (0..nv).collect();
        c.rng.shuffle(&mut all);
        for v in all {
            let (nm, k) = (c.names[v].clone(), c.ar[v]);
            c.do_var(&nm, k);
            if c.dead {
                return;
            }
        }
        for b in 0..2 {
            c.do_const(F::B, b);
        }
    }
    let keepvars = c.next;
    let steps = cfg.or("steps", 24);
    for t in 0..steps {
        if c.dead {
            return;
        }
        let live: Vec<usize> = (0..c.hs.len()).filter(|&i| c.hs[i].no >= keepvars).collect();
        if t < 2 || live.len() < 2 {
            c.build_class(&g);
            continue;
        }
        if live.len() > 7 {
            let mut idx: Vec<usize> = live.iter().cloned().filter(|_| c.rng.chance(50)).collect();
            c.do_drop(&mut idx);
            continue;
        }
        match c.rng.below(12) {
            0 => {
                c.build_class(&g);
            }
            1 => {
                c.gc_any();
                if !c.dead {
                    c.do_chk(true, &[]);
                }
            }
            2 if cfg.get("clear") > 0 => c.do_clear(),
            3 if c.rng.chance(50) => c.do_eqs(),
            4 => {
                // everything but one function goes; new ones take the freed slots
                let keep = *c.rng.pick(&live);
                let mut idx: Vec<usize> = live.iter().cloned().filter(|&i| i != keep).collect();
                c.do_drop(&mut idx);
                if !c.dead {
                    c.gc_any();
                }
                if !c.dead {
                    c.build_class(&g);
                }
                if !c.dead {
                    c.do_chk(true, &[]);
                }
            }
            _ => {
                for _ in 0..30 {
                    if let Some((op, a, p)) = c.choose_op() {
                        if matches!(op.as_str(), "dual" | "product" | "divide" | "kofn" | "andn" | "orn" | "minn" | "maxn")
                            || a.iter().filter(|&&i| c.hs[i].no >= keepvars).count() < a.len().min(2)
                            || a.iter().any(|&i| c.hs[i].no < keepvars && c.hs[i].d.iter().any(|&x| x != c.hs[i].d[0]))
                        {
                            continue;
                        }
                        if let Some(r) = c.do_op(&op, &a, p) {
                            if !c.dead && c.rng.chance(35) {
                                if c.rng.chance(50) {
                                    c.do_clear();
                                }
                                if !c.dead {
                                    let no = c.hs[r].no;
                                    if let Some(q) = c.do_op(&op, &a, p) {
                                        let l = format!("{{\"e\":\"same\",\"a\":{},\"b\":{}}}", no, c.hs[q].no);
                                        c.out.line(&l);
                                    }
                                }
                            }
                        }
                        break;
                    }
                }
            }
        }
    }
    if !c.dead {
        c.gc_any();
        c.do_chk(true, &[]);
    }
}

impl<'a> Ctx<'a> {
    /// a random function of the weighted sum modulo m, built with create_node bottom-up
    pub fn build_class(&mut self, g: &Huge) -> Option<usize> {
        let f = match self.sys.kind.as_str() {
            "bdd" | "mdd" | "bss" => F::B,
            "zdd" => F::Z,
            "mtmdd" => F::V,
            "zmdd" => F::Y,
            _ => {
                if self.rng.chance(50) {
                    F::B
                } else {
                    F::V
                }
            }
        };
        let tab: Vec<i64> = (0..g.m)
            .map(|_| match f {
                F::B | F::Z => self.rng.below(2) as i64,
                F::V => self.rng.range(-3, 3),
                F::Y => {
                    if self.rng.chance(50) {
                        self.rng.range(-1, 2)
                    } else {
                        UNDET
                    }
                }
            })
            .collect();
        let (ord, hdr) = (self.ord.clone(), self.hdr.clone());
        // sums reachable from above
        let mut need: Vec<Vec<bool>> = vec![vec![false; g.m]; ord.len() + 1];
        need[ord.len()][0] = true;
        for l in (0..ord.len()).rev() {
            for q in 0..g.m {
                if need[l + 1][q] {
                    for s in 0..ord[l].k {
                        let t = (q + g.w[ord[l].u - 1] * s) % g.m;
                        need[l][t] = true;
                    }
                }
            }
        }
        let tg = tagv(&["C20"]);
        let mut cur: HashMap<usize, Hd> = HashMap::new();
        for q in 0..g.m {
            if need[0][q] {
                let x = tab[q];
                let h = self.call(tg.clone(), "constant", |s| s.constant(f, x))?;
                cur.insert(q, h);
            }
        }
        for l in 0..ord.len() {
            let mut nx: HashMap<usize, Hd> = HashMap::new();
            for q in 0..g.m {
                if need[l + 1][q] {
                    let ids: Vec<usize> = (0..ord[l].k).map(|s| (q + g.w[ord[l].u - 1] * s) % g.m).collect();
                    let h = self.call(tg.clone(), "create_node", |sy| {
                        let r: Vec<&Hd> = ids.iter().map(|j| &cur[j]).collect();
                        sy.create(hdr[l], &r)
                    })?;
                    nx.insert(q, h);
                }
            }
            cur = nx;
        }
        let h = cur.remove(&0).unwrap();
        drop(cur);
        let t: Vec<i64> = self
            .dg
            .iter()
            .map(|p| tab[p.iter().enumerate().map(|(v, &s)| g.w[v] * s).sum::<usize>() % g.m])
            .collect();
        self.log_mk(f, &t, &["C20"], h)
    }
}
