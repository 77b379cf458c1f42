//! Enumerated small universes: all functions, all operand combinations (or windows of them).
use crate::gen::*;
use crate::sys::*;
use crate::util::*;
use std::collections::HashMap;

/// all tables over n points with the given values, or `max` random ones
fn tables(c: &mut Ctx, vals: &[i64], max: usize) -> Vec<Vec<i64>> {
    let n = c.n;
    let tot = (vals.len() as f64).powi(n as i32);
    if tot <= max as f64 {
        let mut r: Vec<Vec<i64>> = (0..tot as usize)
            .map(|mut q| {
                (0..n)
                    .map(|_| {
                        let x = vals[q % vals.len()];
                        q /= vals.len();
                        x
                    })
                    .collect()
            })
            .collect();
        c.rng.shuffle(&mut r);
        r
    } else {
        let mut r: Vec<Vec<i64>> = vec![];
        while r.len() < max {
            // often a change of an earlier one, so that diagrams share
            let t: Vec<i64> = if !r.is_empty() && c.rng.chance(60) {
                let mut t = r[c.rng.below(r.len())].clone();
                for _ in 0..1 + c.rng.below(3) {
                    let i = c.rng.below(n);
                    t[i] = *c.rng.pick(vals);
                }
                t
            } else {
                (0..n).map(|_| *c.rng.pick(vals)).collect()
            };
            if !r.contains(&t) {
                r.push(t);
            }
        }
        r
    }
}

/// every monotone table with values 0..=hi (0/1 when hi = 1)
fn monotone(c: &Ctx, hi: i64) -> Vec<Vec<i64>> {
    fn go(c: &Ctx, hi: i64, i: usize, t: &mut Vec<i64>, out: &mut Vec<Vec<i64>>) {
        if i == c.n {
            out.push(t.clone());
            return;
        }
        let mut lo = 0;
        for v in 0..c.ar.len() {
            if c.dg[i][v] > 0 {
                lo = lo.max(t[i - c.str_[v]]);
            }
        }
        for x in lo..=hi {
            t.push(x);
            go(c, hi, i + 1, t, out);
            t.pop();
        }
    }
    let mut out = vec![];
    go(c, hi, 0, &mut vec![], &mut out);
    out
}

const BINOPS: [(&str, &str); 8] = [
    ("bdd mdd", "and or xor imp nand nor xnor"),
    ("bss", "and or xor"),
    ("zdd zw", "union intersect setdiff product divide"),
    ("mdd mtmdd", "replace"),
    ("mtmdd", "rem"),
    ("mtmdd mtmdd2 mss", "add sub mul div min max"),
    ("mtmdd2 mss", "and or xor eq neq lt lte gt gte"),
    ("zmdd", "yintersect ysetdiff"),
];
fn opforest(op: &str, f: F) -> bool {
    match op {
        "and" | "or" | "xor" | "imp" | "nand" | "nor" | "xnor" => f == F::B,
        "eq" | "neq" | "replace" => f == F::B || f == F::V,
        "lt" | "lte" | "gt" | "gte" | "add" | "sub" | "mul" | "div" | "rem" | "min" | "max" => f == F::V,
        _ => true,
    }
}

fn setup(c: &mut Ctx) {
    let wrap = c.sys.wrapper();
    if !wrap {
        c.core_order(0);
    }
    c.reset();
    if wrap {
        let mut order: Vec<usize> = (0..c.ar.len()).collect();
        c.rng.shuffle(&mut order);
        for v in order {
            let (nm, k) = (c.names[v].clone(), c.ar[v]);
            if !c.dead {
                c.do_var(&nm, k);
            }
        }
    }
}

impl<'a> Ctx<'a> {
    /// build a function with unlogged calls, log only the result
    pub fn quick_build(&mut self, f: F, t: &[i64]) -> Option<usize> {
        if self.sys.kind == "zw" {
            let sets: Vec<Vec<usize>> = (0..self.n)
                .filter(|&i| t[i] == 1)
                .map(|i| (0..self.ar.len()).filter(|&v| self.dg[i][v] == 1).collect())
                .collect();
            return self.do_sets(&sets);
        }
        let ord = self.ord.clone();
        let hdr = self.hdr.clone();
        fn rec(c: &mut Ctx, f: F, lv: usize, off: usize, t: &[i64], ord: &[OrdE], hdr: &[usize], memo: &mut HashMap<(usize, usize), Hd>) -> Option<()> {
            if memo.contains_key(&(lv, off)) {
                return Some(());
            }
            let h = if lv == 0 {
                c.call(tagv(&["C20"]), "constant", |s| s.constant(f, t[off]))?
            } else {
                let st = c.str_[ord[lv - 1].u - 1];
                let k = ord[lv - 1].k;
                for s in 0..k {
                    rec(c, f, lv - 1, off + s * st, t, ord, hdr, memo)?;
                }
                c.call(tagv(&["C20"]), "create_node", |sy| {
                    let r: Vec<&Hd> = (0..k).map(|s| &memo[&(lv - 1, off + s * st)]).collect();
                    sy.create(hdr[lv - 1], &r)
                })?
            };
            memo.insert((lv, off), h);
            Some(())
        }
        let mut memo = HashMap::new();
        rec(self, f, ord.len(), 0, t, &ord, &hdr, &mut memo)?;
        let h = memo.remove(&(ord.len(), 0)).unwrap();
        drop(memo);
        self.log_mk(f, t, &["C20"], h)
    }
    /// one operator with one operand ranging over a list of handles
    fn do_row(&mut self, op: &str, a: &[usize], pos: usize, over: &[usize], p: i64) {
        let mut res: Vec<i64> = vec![];
        let mut news: Vec<(Hd, String, Vec<i64>)> = vec![];
        let mut at: HashMap<(F, usize), usize> = HashMap::new();
        for s in &self.hs {
            at.entry((s.f, s.h.id())).or_insert(s.no);
        }
        for &b in over {
            let mut x = a.to_vec();
            x[pos] = b;
            let fs: Vec<F> = x.iter().map(|&i| self.hs[i].f).collect();
            let tags = self.op_tags(op, &fs);
            let slots = std::mem::take(&mut self.hs);
            let h = {
                let r: Vec<&Hd> = x.iter().map(|&i| &slots[i].h).collect();
                self.call(tags, op, |s| s.op(op, &r, p))
            };
            self.hs = slots;
            let h = match h {
                Some(h) => h,
                None => return,
            };
            match at.get(&(h.f(), h.id())) {
                Some(&no) => res.push(no as i64),
                None => {
                    let k = match news.iter().position(|n| n.0.f() == h.f() && n.0.id() == h.id()) {
                        Some(k) => k,
                        None => {
                            let (o, d) = self.obs(&h);
                            if self.dead {
                                return;
                            }
                            news.push((h, o, d));
                            news.len() - 1
                        }
                    };
                    res.push(-(k as i64) - 1);
                }
            }
        }
        let nos: Vec<usize> = a.iter().map(|&i| self.hs[i].no).collect();
        let ov: Vec<usize> = over.iter().map(|&i| self.hs[i].no).collect();
        let ob: Vec<String> = news.iter().map(|n| n.1.clone()).collect();
        let line = format!(
            "{{\"e\":\"row\",\"op\":\"{}\",\"a\":{},\"pos\":{},\"over\":{},\"p\":{},\"r\":{},\"os\":[{}],\"st\":{}}}",
            op,
            jarr(&nos),
            pos + 1,
            jarr(&ov),
            p,
            jarr(&res),
            ob.join(","),
            self.st()
        );
        self.out.line(&line);
    }
}

pub fn run(kind: &str, what: &str, ar: &[usize], vals: &HashMap<F, Vec<i64>>, names: Vec<String>, sd: u64, out: &mut Out, cfg: &Cfg) {
    let mut c = Ctx::new(kind, ar.to_vec(), names, None, sd, 1, out, cfg);
    setup(&mut c);
    let max = cfg.or("maxf", 256) as usize;
    let mut fs: Vec<F> = vals.keys().cloned().collect();
    fs.sort();
    match what {
        "rows" => {
            // reclaimed slots first: parents may then have smaller ids than their children
            if cfg.or("scramble", 70) as usize > c.rng.below(100) {
                let base = c.next;
                for &f in &fs {
                    let m = 4 + c.rng.below(max);
                    for t in tables(&mut c, &vals[&f], max).into_iter().take(m) {
                        if c.dead {
                            return;
                        }
                        c.quick_build(f, &t);
                    }
                }
                let mut idx: Vec<usize> = (0..c.hs.len()).filter(|&i| c.hs[i].no >= base).collect();
                c.do_drop(&mut idx);
                let all = c.sys.forests();
                c.do_gc(&all.into_iter().filter(|f| *f != F::Y || kind == "zmdd").collect::<Vec<_>>());
            }
            for &f in &fs {
                for t in tables(&mut c, &vals[&f], max) {
                    if c.dead {
                        return;
                    }
                    c.quick_build(f, &t);
                }
            }
            // every binary operator with every first operand, in random order
            let mut plan: Vec<(&str, usize)> = vec![];
            let ops: Vec<&str> = BINOPS.iter().filter(|x| x.0.split(' ').any(|k| k == kind)).flat_map(|x| x.1.split(' ')).collect();
            let all: Vec<usize> = (0..c.hs.len()).filter(|&i| fs.contains(&c.hs[i].f)).collect();
            for op in &ops {
                for &i in &all {
                    if opforest(op, c.hs[i].f) {
                        plan.push((op, c.hs[i].no));
                    }
                }
            }
            c.rng.shuffle(&mut plan);
            for _ in 0..cfg.or("rows", 60) {
                if c.dead {
                    return;
                }
                match c.rng.below(30) {
                    0 => c.gc_any(),
                    1 => c.do_clear(),
                    _ => {}
                }
                if c.dead {
                    return;
                }
                if plan.is_empty() || c.rng.chance(cfg.or("other", 30) as usize) {
                    if let Some((op, a, p)) = c.choose_op() {
                        if a.is_empty() {
                            continue;
                        }
                        let pos = c.rng.below(a.len());
                        let f = c.hs[a[pos]].f;
                        let mut over = c.of(f);
                        if op == "divide" && pos == 1 {
                            over.retain(|&i| c.hs[i].d.iter().any(|&x| x != 0));
                        }
                        c.do_row(&op, &a, pos, &over, p);
                    }
                } else {
                    let (op, no) = plan.pop().unwrap();
                    let i = c.hs.iter().position(|s| s.no == no).unwrap();
                    let f = c.hs[i].f;
                    let mut over = c.of(f);
                    if op == "divide" {
                        over.retain(|&i| c.hs[i].d.iter().any(|&x| x != 0));
                    }
                    let b = over[0];
                    c.do_row(op, &[i, b], 1, &over, 0);
                }
            }
        }
        _ => {
            let f = fs[0];
            let mut ts = if what == "mono" { monotone(&c, *vals[&f].iter().max().unwrap()) } else { tables(&mut c, &vals[&f], max) };
            let mut pr = Rng(cfg.or("perm", 1) as u64 * 77_777 + 1);
            pr.shuffle(&mut ts);
            let (from, count) = (cfg.get("from") as usize, cfg.or("count", 1_000_000) as usize);
            for t in ts.into_iter().skip(from).take(count) {
                if c.dead {
                    return;
                }
                let base = c.next;
                let i = match c.quick_build(f, &t) {
                    Some(i) => i,
                    None => return,
                };
                let no = c.hs[i].no;
                let ix = |c: &Ctx| c.hs.iter().position(|s| s.no == no).unwrap();
                if what.starts_with("mono") || what == "query_mp" {
                    for w in ["path", "cut"] {
                        if c.dead {
                            return;
                        }
                        let i = ix(&c);
                        let r = c.do_mp(w, i);
                        if let (Some(r), false) = (r, c.dead) {
                            if c.rng.chance(cfg.get("ext") as usize) {
                                let d = c.hs[r].d.clone();
                                let sel = c.random_sel(c.hs[r].f, &d);
                                c.do_ext(r, &sel, false);
                            }
                            if !c.dead && kind == "mss" && c.rng.chance(cfg.get("lvl") as usize) {
                                for v in 0..=*vals[&f].iter().max().unwrap() {
                                    if !c.dead {
                                        c.do_lvl(r, v);
                                    }
                                }
                            }
                        }
                    }
                } else {
                    let mut sels: Vec<Vec<i64>> = match f {
                        F::B => vec![vec![1], vec![0], vec![0, 1]],
                        F::Z => vec![vec![1]],
                        _ => vec![],
                    };
                    while sels.len() < 3 && f != F::Z {
                        let s = c.random_sel(f, &t);
                        sels.push(s);
                    }
                    for sel in sels {
                        for q in ["cnt", "ext", "prob", "bm", "iv"] {
                            if c.dead {
                                return;
                            }
                            if c.rng.chance(cfg.get(q) as usize) {
                                let i = ix(&c);
                                match q {
                                    "cnt" => c.do_cnt(i, &sel, 0),
                                    "ext" => {
                                        let lazy = c.rng.chance(35);
                                        c.do_ext(i, &sel, lazy)
                                    }
                                    "iv" => {
                                        let bm = c.rng.chance(60);
                                        c.do_interval(i, &sel, bm)
                                    }
                                    _ => {
                                        let m = if c.rng.chance(50) { 0 } else { 46337 };
                                        c.do_prob(i, &sel, m, q == "bm")
                                    }
                                }
                            }
                        }
                    }
                    for q in ["dot", "snap"] {
                        if !c.dead && c.rng.chance(cfg.get(q) as usize) {
                            let i = ix(&c);
                            if q == "dot" {
                                c.do_dot(i)
                            } else {
                                c.do_snap(i)
                            }
                        }
                    }
                }
                if c.dead {
                    return;
                }
                // a few functions stay, for sharing
                let mut idx: Vec<usize> = (0..c.hs.len()).filter(|&i| c.hs[i].no >= base).collect();
                if c.rng.chance(20) && c.hs.len() < 40 {
                    idx.pop();
                }
                c.do_drop(&mut idx);
                if !c.dead && c.rng.chance(4) {
                    c.gc_any();
                }
            }
        }
    }
}
