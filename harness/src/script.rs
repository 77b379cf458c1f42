//! Histories generated by TLC from the engine model (spec/ForestGen.tla), replayed into the real code.
//! One line per schedule: calls separated by ';', e.g. "var s1 1 1;var s2 2 1;and s3 s1 s2;drop s1;gc".
use crate::gen::*;
use crate::sys::*;
use crate::util::*;
use std::collections::HashMap;

pub fn forest(kind: &str, want: &str) -> F {
    match (kind, want) {
        (_, "v") => F::V,
        ("bdd", _) | ("bss", _) | ("mdd", _) | ("mtmdd2", _) | ("mss", _) => F::B,
        ("mtmdd", _) => F::V,
        ("zmdd", _) => F::Y,
        _ => F::Z,
    }
}

fn lit(c: &Ctx, f: F, v: usize, s: usize, label: i64) -> Vec<i64> {
    (0..c.n)
        .map(|i| {
            let here = c.dg[i][v] == s;
            let rest = (0..c.ar.len()).all(|u| u == v || c.dg[i][u] == 0);
            match f {
                F::B => here as i64,
                F::V => if here { label } else { 0 },
                F::Z => (here && rest) as i64,
                F::Y => if here && rest { label } else { UNDET },
            }
        })
        .collect()
}

fn rename(f: F, op: &str) -> &str {
    match (f, op) {
        (F::Z, "diff") => "setdiff",
        (F::Y, "diff") => "ysetdiff",
        (F::Y, "intersect") => "yintersect",
        (F::V, "and") => "min",
        (F::V, "or") => "max",
        (_, o) => o,
    }
}

pub fn run(kind: &str, want: &str, sched: &str, ar: &[usize], ops: &[String], names: Vec<String>, sd: u64, out: &mut Out, cfg: &Cfg) {
    let f = forest(kind, want);
    let mut c = Ctx::new(kind, ar.to_vec(), names, None, sd, 1, out, cfg);
    let wrap = c.sys.wrapper();
    if !wrap {
        c.core_order(0);
    }
    c.reset();
    if wrap {
        if c.rng.chance(25) {
            let t = 3 + c.rng.below(8);
            c.do_thr(f, t);
        }
        let mut order: Vec<usize> = (0..ar.len()).collect();
        c.rng.shuffle(&mut order);
        for v in order {
            let (nm, k) = (c.names[v].clone(), c.ar[v]);
            if !c.dead {
                c.do_var(&nm, k);
            }
        }
    }
    // the level numbers of the schedule, lowest level first
    let lv: Vec<usize> = c.ord.iter().map(|o| o.u - 1).collect();
    let gcf = match kind {
        "mss" | "mtmdd2" => vec![F::B, F::V],
        _ => vec![f],
    };
    let label = if f == F::V || f == F::Y { 1 + c.rng.below(3) as i64 } else { 1 };
    let mut at: HashMap<String, usize> = HashMap::new();
    for step in sched.split(';') {
        if c.dead {
            return;
        }
        let w: Vec<&str> = step.split(' ').collect();
        let pos = |c: &Ctx, at: &HashMap<String, usize>, s: &str| c.hs.iter().position(|x| x.no == at[s]).unwrap();
        let made = match w[0] {
            "var" => {
                let (l, s) = (w[2].parse::<usize>().unwrap() - 1, w[3].parse::<usize>().unwrap());
                let s = s % c.ar[lv[l]];
                if c.sys.kind == "zw" {
                    let v = lv[l];
                    c.do_sets(&[vec![v]])
                } else {
                    let t = lit(&c, f, lv[l], s.max(1), label);
                    c.build(f, &t)
                }
            }
            "const" => {
                let b: i64 = w[2].parse().unwrap();
                if c.sys.kind == "zw" {
                    if b == 0 { c.do_sets(&[]) } else { c.do_sets(&[vec![]]) }
                } else if f == F::Y {
                    c.do_const(f, if b == 0 { UNDET } else { label })
                } else {
                    c.do_const(f, b * label)
                }
            }
            "drop" => {
                let mut idx = vec![pos(&c, &at, w[1])];
                c.do_drop(&mut idx);
                at.remove(w[1]);
                continue;
            }
            "gc" => {
                c.do_gc(&gcf);
                continue;
            }
            "clear" => {
                c.do_clear();
                continue;
            }
            op => {
                let a: Vec<usize> = w[2..].iter().map(|s| pos(&c, &at, s)).collect();
                c.do_op(rename(f, op), &a, 0)
            }
        };
        match made {
            Some(i) => {
                at.insert(w[1].into(), c.hs[i].no);
            }
            None => return,
        }
    }
    if c.dead {
        return;
    }
    c.do_chk(true, &[]);
    // whatever state the tables are in, every further call must be right
    let mut held: Vec<usize> = at.values().cloned().collect();
    held.sort();
    let mut budget = cfg.or("probe", 10);
    for op in ops {
        let n = if op == "ite" { 3 } else if op == "not" { 1 } else { 2 };
        let mut combos: Vec<Vec<usize>> = vec![vec![]];
        for _ in 0..n {
            combos = combos.iter().flat_map(|x| held.iter().map(move |&h| { let mut y = x.clone(); y.push(h); y })).collect();
        }
        c.rng.shuffle(&mut combos);
        for cb in combos {
            if c.dead || budget <= 0 {
                return;
            }
            budget -= 1;
            let a: Vec<usize> = cb.iter().map(|&no| c.hs.iter().position(|x| x.no == no).unwrap()).collect();
            if let Some(r) = c.do_op(rename(f, op), &a, 0) {
                if c.dead {
                    return;
                }
                if cfg.get("wc") > 0 && c.rng.chance(cfg.get("wc") as usize) {
                    let o = rename(f, op).to_string();
                    c.do_wc(&o, &a, 0, r);
                    if c.dead {
                        return;
                    }
                }
                if c.rng.chance(60) {
                    let mut idx = vec![r];
                    c.do_drop(&mut idx);
                }
            }
        }
    }
}
