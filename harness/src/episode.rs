//! One random episode: a manager, a variable universe, and a weighted random walk over its API.
use crate::gen::*;
use crate::sys::*;
use crate::util::*;

pub fn names_for(rng: &mut Rng, n: usize) -> Vec<String> {
    // names that are easily taken for one another
    let groups: [&[&str]; 9] = [
        &["x1", "x10", "x01", "x", "x_", "X", "_x", "x.1", "x1_"],
        &["A", "AB", "a", "B", "ab", "A_B", "A-B", "BA"],
        &["pump", "pump2", "pump_", "Pump", "pump.", "PUMP", "_pump", "pum"],
        &["y_1", "y1", "y-1", "y:1", "Y_1"],
        &["P", "Q", "p", "q'", "q", "Q#"],
        &["save", "load", "save(", "load(x", "true", "inf", "1e5", "0x10", "1_0", "nan", "save)"],
        &["comp.7", "comp.07", "comp7", "comp.70"],
        &["valve-2", "valve_2", "valve2", "valve"],
        &["zeta", "Z9", "m", "v3", "w", "\u{e9}", "e\u{301}", "Z09"],
    ];
    let mut gs: Vec<Vec<&str>> = groups
        .iter()
        .map(|g| {
            let mut v = g.to_vec();
            rng.shuffle(&mut v);
            v
        })
        .collect();
    rng.shuffle(&mut gs);
    let mut pool: Vec<String> = gs.concat().iter().map(|s| s.to_string()).collect();
    if rng.chance(50) {
        rng.shuffle(&mut pool);
    }
    while pool.len() < n {
        pool.push(format!("n{}", pool.len()));
    }
    pool.truncate(n);
    rng.shuffle(&mut pool);
    pool
}

pub fn shape(rng: &mut Rng, binary: bool, maxpts: usize) -> Vec<usize> {
    if binary {
        let mut n = 1;
        while (1 << (n + 1)) <= maxpts {
            n += 1;
        }
        let k = if rng.chance(70) { n - rng.below(2.min(n)) } else { 1 + rng.below(n) };
        return vec![2; k.max(1)];
    }
    let mut ar = vec![];
    let mut p = 1;
    loop {
        let k = *rng.pick(&[2usize, 2, 3, 3, 4, 5]);
        if p * k > maxpts {
            if ar.is_empty() {
                continue;
            }
            break;
        }
        p *= k;
        ar.push(k);
        if rng.chance(8) {
            break;
        }
    }
    ar
}

/// Names under which expressions save: alike up to case or surrounding characters, equal to a
/// variable, an operator or a literal, empty.
const SAVE_NAMES: [&str; 12] = ["s", "S", "t", "s_", "_s", "x1", "0", "00", "", "+", "s(t)", "s)"];

impl<'a> Ctx<'a> {
    fn undeclared(&self) -> Vec<usize> {
        (0..self.nexp).filter(|&v| !self.ord.iter().any(|o| o.u == v + 1)).collect()
    }
    fn declare_next(&mut self) {
        let u = self.undeclared();
        if u.is_empty() {
            return;
        }
        let v = *self.rng.pick(&u);
        let (nm, k) = (self.names[v].clone(), self.ar[v]);
        self.do_var(&nm, k);
    }
    fn redeclare(&mut self) {
        let d = self.ord.clone();
        if d.is_empty() {
            return;
        }
        let e = self.rng.pick(&d).clone();
        let k = if self.sys.kind == "mss" && self.rng.chance(40) { 2 + self.rng.below(4) } else { e.k };
        self.do_var(&e.nm, k);
    }
    fn filler(&mut self) {
        self.nfill += 1;
        let nm = format!("f{}", self.nfill);
        let k = if self.sys.kind == "mss" { 2 + self.rng.below(3) } else { 2 };
        self.do_var(&nm, k);
    }
    fn main_forest(&mut self) -> F {
        match self.sys.kind.as_str() {
            "bdd" | "mdd" | "bss" => F::B,
            "zdd" | "zw" => F::Z,
            "mtmdd" => F::V,
            "zmdd" => F::Y,
            _ => {
                if self.rng.chance(self.cfg.or("boolpct", 45) as usize) {
                    F::B
                } else {
                    F::V
                }
            }
        }
    }
    fn random_const(&mut self) {
        let f = self.main_forest();
        let und = self.cfg.get("undet") > 0
            && self.rng.chance(25)
            && !matches!(self.sys.kind.as_str(), "bss" | "zdd" | "zw");
        let c = if und {
            UNDET
        } else {
            match f {
                F::B | F::Z => self.rng.below(2) as i64,
                F::V => {
                    let l = self.cfg.or("lim", 4);
                    self.rng.range(-l, l)
                }
                F::Y => self.rng.range(-1, 2),
            }
        };
        let f2 = if self.sys.kind == "bss" && self.rng.chance(20) { F::Z } else { f };
        // over hidden variables the family of the empty set is not a class function
        let c = if self.sum() && f2.zs() { f2.null() } else { c };
        self.do_const(f2, if f2 == F::Z && c == UNDET { 0 } else { c });
    }
    fn sets_lists(&mut self) -> Vec<Vec<usize>> {
        let m = self.rng.below(6);
        (0..m)
            .map(|_| {
                let mut s: Vec<usize> = (0..self.nexp).filter(|_| self.rng.chance(45)).collect();
                if self.rng.chance(10) && !s.is_empty() {
                    let x = s[0];
                    s.push(x);
                }
                self.rng.shuffle(&mut s);
                s
            })
            .collect()
    }
    /// a family put together from singletons, products and unions
    fn build_sets(&mut self) -> Option<()> {
        let start = self.next;
        let mut acc = self.do_const(F::Z, 0)?;
        for _ in 0..1 + self.rng.below(4) {
            let mut f = self.do_const(F::Z, 1)?;
            let vs: Vec<usize> = self.declared().into_iter().filter(|_| self.rng.chance(50)).collect();
            for u in vs {
                if self.dead {
                    return None;
                }
                let (nm, k) = (self.names[u - 1].clone(), self.ar[u - 1]);
                let x = self.do_var(&nm, k)?;
                f = self.do_op("product", &[f, x], 0)?;
            }
            if self.dead {
                return None;
            }
            acc = self.do_op("union", &[acc, f], 0)?;
        }
        let keep = self.hs[acc].no;
        let mut idx: Vec<usize> =
            (0..self.hs.len()).filter(|&i| self.hs[i].no >= start && self.hs[i].no != keep).collect();
        self.do_drop(&mut idx);
        Some(())
    }
    fn build_random(&mut self) {
        if self.sys.kind == "zw" && self.cfg.get("zbuild") > 0 {
            self.build_sets();
            return;
        }
        if !self.can_build() {
            return;
        }
        let f = self.main_forest();
        let mono = self.cfg.get("mono");
        let t = if f != F::Z && f != F::Y && mono > 0 && self.rng.chance(mono as usize) {
            let sp = self.rng.chance(20);
            self.monotone_table(f, sp)
        } else {
            self.random_table(f)
        };
        self.build(f, &t);
    }
    fn pick_h(&mut self, p: impl Fn(&Slot) -> bool) -> Option<usize> {
        let l: Vec<usize> = (0..self.hs.len()).filter(|&i| p(&self.hs[i])).collect();
        if l.is_empty() {
            None
        } else if self.rng.chance(50) {
            Some(l[l.len() - 1 - self.rng.below(l.len().min(4))])
        } else {
            Some(*self.rng.pick(&l))
        }
    }
    // ---------------------------------------------------------- expressions
    fn rpn_types(&self, toks: &[Tok]) -> bool {
        // true when the expression can be run: no if-then-else over branches of different
        // kinds (documented panic) and no number leaving the small range
        let mut st: Vec<(F, i64)> = vec![];
        let mut saved: std::collections::HashMap<String, (F, i64)> = Default::default();
        for t in toks {
            match t.t {
                'c' => st.push((t.f, if t.val == UNDET { 0 } else { t.val.abs() })),
                'v' => st.push((t.f, 8)),
                's' => match st.last() {
                    Some(x) => {
                        saved.insert(t.name.clone(), *x);
                    }
                    None => return true,
                },
                'l' => match saved.get(&t.name) {
                    Some(x) => st.push(*x),
                    None => return true,
                },
                _ => {
                    if st.len() < t.ar {
                        return true;
                    }
                    let a = st.split_off(st.len() - t.ar);
                    match t.name.as_str() {
                        "ite" => {
                            if a[1].0 != a[2].0 {
                                return false;
                            }
                            st.push((a[1].0, a[1].1.max(a[2].1)));
                        }
                        "add" | "sub" => st.push((F::V, a[0].1 + a[1].1)),
                        "mul" => st.push((F::V, a[0].1.max(1) * a[1].1.max(1))),
                        "div" | "min" | "max" => st.push((F::V, a[0].1.max(a[1].1))),
                        _ => st.push((F::B, 0)),
                    }
                    if st.last().unwrap().1 > 890_000_000 {
                        return false;
                    }
                }
            }
        }
        true
    }
    fn gen_rpn(&mut self) -> Vec<Tok> {
        let mss = self.sys.kind == "mss";
        let len = 3 + self.rng.below(18);
        let mut toks: Vec<Tok> = vec![];
        let mut st: Vec<F> = vec![];
        let mut saved: Vec<(String, F)> = vec![];
        let mut done = false;
        let mut guard = 0;
        while !done && guard < 300 {
            guard += 1;
            let finishing = toks.len() >= len;
            let n = st.len();
            if finishing && n == 1 {
                done = true;
                continue;
            }
            let push = n == 0 || (!finishing && self.rng.chance(48));
            if push {
                match self.rng.below(10) {
                    0 | 1 => {
                        if mss {
                            let t = match self.rng.below(7) {
                                0 => Tok::con("True", F::B, 1),
                                1 => Tok::con("False", F::B, 0),
                                2 => Tok::con("0", F::V, 0),
                                3 if self.rng.chance(50) => {
                                    let v = *self.rng.pick(&[
                                        127i64, 128, 255, 256, -129, 32767, 32768, -32769, 65535, 65537, 999_983, 16_777_217,
                                        -16_777_217, 33_554_433, 123_456_789, -123_456_789, 536_870_911, 800_000_001,
                                    ]);
                                    Tok::con(&v.to_string(), F::V, v)
                                }
                                3 => {
                                    let v = self.rng.range(10, 300);
                                    Tok::con(&v.to_string(), F::V, v)
                                }
                                4 => Tok::con("+2", F::V, 2),
                                _ => {
                                    let v = self.rng.range(-5, 6);
                                    Tok::con(&v.to_string(), F::V, v)
                                }
                            };
                            st.push(t.f);
                            toks.push(t);
                        } else {
                            let (s, v) = *self.rng.pick(&[("0", 0), ("1", 1), ("True", 1), ("False", 0)]);
                            toks.push(Tok::con(s, F::B, v));
                            st.push(F::B);
                        }
                    }
                    2 | 3 if !saved.is_empty() => {
                        let (nm, f) = self.rng.pick(&saved).clone();
                        toks.push(Tok::load(&nm));
                        st.push(f);
                    }
                    _ => {
                        let v = self.rng.below(self.nexp);
                        let f = if mss { F::V } else { F::B };
                        toks.push(Tok::var(&self.names[v].clone(), v + 1, f));
                        st.push(f);
                    }
                }
                continue;
            }
            if self.rng.chance(15) && !finishing {
                let nm = self.rng.pick(&SAVE_NAMES).to_string();
                saved.retain(|x| x.0 != nm);
                saved.push((nm.clone(), *st.last().unwrap()));
                toks.push(Tok::save(&nm));
                continue;
            }
            // an operator
            let top = *st.last().unwrap();
            let cands: Vec<(&str, &str)> = if mss {
                let mut c: Vec<(&str, &str)> = vec![];
                if top == F::B {
                    c.push(("!", "not"));
                }
                if n >= 2 {
                    let s2 = st[n - 2];
                    if top == F::V && s2 == F::V {
                        c.extend([
                            ("+", "add"),
                            ("-", "sub"),
                            ("*", "mul"),
                            ("/", "div"),
                            ("min", "min"),
                            ("max", "max"),
                            ("==", "eq"),
                            ("!=", "neq"),
                            ("<", "lt"),
                            ("<=", "lte"),
                            (">", "gt"),
                            (">=", "gte"),
                        ]);
                    }
                    if top == F::B && s2 == F::B {
                        c.extend([("&&", "and"), ("||", "or"), ("&&", "and"), ("||", "or"), ("==", "eq"), ("!=", "neq")]);
                    }
                    if n >= 3 && s2 == top && st[n - 3] == F::B {
                        c.extend([("?", "ite"), ("?", "ite"), ("?", "ite"), ("?", "ite")]);
                    }
                }
                c
            } else {
                let mut c = vec![("~", "not")];
                if n >= 2 {
                    c.extend([("&", "and"), ("|", "or"), ("^", "xor"), ("&", "and"), ("|", "or"), ("^", "xor")]);
                }
                if n >= 3 {
                    c.extend([("?", "ite"), ("?", "ite")]);
                }
                c
            };
            if cands.is_empty() {
                // bring the top to the other kind, or give up
                if n >= 2 && finishing {
                    let want = st[n - 2];
                    if top == F::V && want == F::B {
                        toks.push(Tok::con("1", F::V, 1));
                        toks.push(Tok::op(">", "gt"));
                        st.pop();
                        st.push(F::B);
                    } else if top == F::B && want == F::V {
                        toks.push(Tok::con("2", F::V, 2));
                        toks.push(Tok::con("-1", F::V, -1));
                        toks.push(Tok::op("?", "ite"));
                        st.pop();
                        st.push(F::V);
                    }
                } else if n == 1 && top == F::V && self.rng.chance(40) {
                    toks.push(Tok::con("2", F::V, 2));
                    toks.push(Tok::op("<=", "lte"));
                    st.pop();
                    st.push(F::B);
                }
                continue;
            }
            let (s, o) = *self.rng.pick(&cands);
            let t = Tok::op(s, o);
            for _ in 0..t.ar {
                let f = st.pop().unwrap();
                if t.ar == 3 && st.len() == n - 1 {
                    saved = saved.clone();
                    let _ = f;
                }
            }
            st.push(match o {
                "add" | "sub" | "mul" | "div" | "min" | "max" => F::V,
                "ite" => top,
                _ => F::B,
            });
            toks.push(t);
        }
        toks
    }
    fn random_rpn(&mut self) {
        let mut toks = self.gen_rpn();
        if self.rng.chance(self.cfg.or("badrpn", 30) as usize) {
            for _ in 0..1 + self.rng.below(2) {
                if toks.is_empty() {
                    break;
                }
                let i = self.rng.below(toks.len());
                match self.rng.below(5) {
                    0 | 1 => {
                        toks.remove(i);
                    }
                    2 => {
                        let t = toks[i].clone();
                        toks.insert(i, t);
                    }
                    3 if self.rng.chance(35) => toks.insert(if self.rng.chance(60) { 0 } else { i }, Tok::save("s")),
                    3 => {
                        // mostly a name that an earlier expression saved
                        let nm = if self.rng.chance(25) { "nosuch" } else { *self.rng.pick(&SAVE_NAMES) };
                        toks.insert(i, Tok::load(nm))
                    }
                    _ => {
                        let j = self.rng.below(toks.len());
                        toks.swap(i, j);
                    }
                }
            }
        }
        if toks.len() > 60 || !self.rpn_types(&toks) {
            return;
        }
        self.do_rpn(&toks);
        if !self.dead && self.rng.chance(20) {
            self.do_chk(true, &["C15"]);
        }
    }

    // ---------------------------------------------------------- the walk
    pub fn run(&mut self) {
        let cfg = self.cfg;
        let wrap = self.sys.wrapper();
        let upfront = !wrap || self.rng.chance(cfg.or("upfront", 60) as usize);
        let nofill = !self.rng.chance(cfg.or("fill", 30) as usize);
        if !wrap {
            let f = if nofill { 0 } else { self.rng.below(3) };
            self.core_order(f);
        }
        self.reset();
        if wrap {
            if (cfg.get("thr") > 0 && self.rng.chance(70) || cfg.get("thrbig") > 0) {
                for f in self.sys.forests() {
                    if f == F::Y || (self.sys.kind == "mss" && f == F::V) {
                        continue;
                    }
                    let t = if cfg.get("thrbig") > 0 {
                        *self.rng.pick(&[70usize, 90, 120, 150])
                    } else {
                        *self.rng.pick(&[1usize, 3, 6, 12, 25, 40, 80])
                    };
                    self.do_thr(f, t);
                }
            }
            if self.sum() {
                let h = self.hid.as_ref().unwrap();
                let mut all: Vec<(String, usize)> = h.names.iter().cloned().zip(h.k.iter().cloned()).collect();
                all.extend(self.names[..self.nexp].iter().cloned().zip(self.ar.iter().cloned()));
                self.rng.shuffle(&mut all);
                for (nm, k) in all {
                    if !self.dead {
                        self.do_var(&nm, k);
                    }
                }
            }
            let target = if upfront { self.nexp } else { 1 };
            while !self.sum() && self.ord.iter().filter(|o| o.u > 0).count() < target && !self.dead {
                if !nofill && self.rng.chance(20) {
                    self.filler();
                }
                self.declare_next();
            }
        } else {
            // the variables themselves
            for l in 0..self.ord.len() {
                let u = self.ord[l].u;
                if u == 0 || self.dead {
                    continue;
                }
                let fs = self.sys.forests();
                for f in fs {
                    if f.zs() && self.sum() {
                        continue;
                    }
                    let t: Vec<i64> = (0..self.n)
                        .map(|i| {
                            let s = self.dg[i][u - 1] as i64;
                            match f {
                                F::B => (s > 0) as i64,
                                F::V => s,
                                F::Z => self.dg[i].iter().enumerate().all(|(v, &x)| (x == 1) == (v + 1 == u)) as i64,
                                F::Y => {
                                    if self.dg[i].iter().enumerate().all(|(v, &x)| (x > 0) == (v + 1 == u)) {
                                        s
                                    } else {
                                        UNDET
                                    }
                                }
                            }
                        })
                        .collect();
                    self.build(f, &t);
                    if self.dead {
                        break;
                    }
                }
            }
        }
        if wrap && self.sys.kind != "zw" {
            for b in 0..2 {
                if !self.dead {
                    self.do_const(F::B, b);
                }
            }
        }
        if !self.dead && self.rng.chance(cfg.get("garb") as usize) {
            self.do_garbage();
        }
        // reclaimed slots first: parents may then have smaller ids than their children
        if cfg.get("gc") > 0 && !self.dead && self.rng.chance(35) {
            let base = self.next;
            for _ in 0..2 + self.rng.below(6) {
                if !self.dead {
                    self.build_random();
                }
            }
            if !self.dead {
                let mut idx: Vec<usize> = (0..self.hs.len()).filter(|&i| self.hs[i].no >= base && !self.hs[i].var).collect();
                self.do_drop(&mut idx);
            }
            if !self.dead {
                self.gc_any();
            }
        }
        let steps = cfg.or("steps", 40);
        let nb = cfg.or("nbuild", 3);
        for _ in 0..nb {
            if !self.dead {
                self.build_random();
            }
        }
        let acts: Vec<(String, usize)> = [
            "op", "build", "const", "clone", "child", "drop", "gc", "thr", "chk", "eqs", "mp", "rpn", "prob",
            "bm", "cnt", "ext", "lab", "lvl", "dot", "snap", "clear", "var", "sets", "storm", "redo", "stale", "churn", "sop", "wide", "flood", "idem", "garbage",
        ]
        .iter()
        .map(|s| (s.to_string(), cfg.get(s).max(0) as usize))
        .filter(|x| x.1 > 0)
        .collect();
        let tot: usize = acts.iter().map(|x| x.1).sum();
        for _ in 0..steps {
            if self.dead {
                break;
            }
            self.trim(cfg.or("keep", 24) as usize);
            if self.dead {
                break;
            }
            let mut r = self.rng.below(tot);
            let mut act = "";
            for (s, w) in &acts {
                if r < *w {
                    act = s;
                    break;
                }
                r -= w;
            }
            let act = act.to_string();
            self.act(&act);
        }
        if !self.dead {
            if cfg.get("chk") > 0 {
                self.do_chk(true, &[]);
            }
            if cfg.get("gc") > 0 {
                let fs = if self.sys.kind == "mss" && self.of(F::Y).is_empty() {
                    vec![F::B, F::V]
                } else {
                    self.sys.forests()
                };
                self.do_gc(&fs);
                if !self.dead {
                    self.do_chk(true, &[]);
                }
            }
        }
        self.out.intent(&tagv(&["C03"]), "drop manager");
    }
    fn act(&mut self, act: &str) {
        let k = self.sys.kind.clone();
        let wrap = self.sys.wrapper();
        let nofill = self.ord.iter().all(|o| o.u > 0) || self.sum();
        if self.hs.is_empty() && !matches!(act, "const" | "build" | "var" | "sets" | "rpn") {
            self.random_const();
            return;
        }
        if self.sum() && matches!(act, "child" | "sets" | "lab" | "lvl" | "dot") {
            return;
        }
        match act {
            "op" => {
                self.random_op();
            }
            "wide" => self.wide(),
            "build" => self.build_random(),
            "const" => self.random_const(),
            "clone" => {
                let i = self.rng.below(self.hs.len());
                self.do_clone(i)
            }
            "storm" => {
                let i = self.rng.below(self.hs.len());
                let m = *self.rng.pick(&[3usize, 300, 70000]);
                if wrap {
                    self.storm(i, m)
                }
            }
            "child" => {
                if let Some(i) = self.pick_h(|s| s.f != F::Y) {
                    self.do_child(i)
                }
            }
            "drop" => {
                let m = 1 + self.rng.below(1 + self.hs.len() / 3);
                let mut idx: Vec<usize> = (0..m).map(|_| self.rng.below(self.hs.len())).collect();
                self.do_drop(&mut idx)
            }
            "gc" => {
                self.gc_any();
                if !self.dead && self.rng.chance(self.cfg.or("gcchk", 60) as usize) {
                    self.do_chk(true, &[])
                }
            }
            "thr" => {
                if wrap {
                    let f = match k.as_str() {
                        "bss" => *self.rng.pick(&[F::B, F::Z]),
                        "zw" => F::Z,
                        _ => F::B,
                    };
                    let t = if self.cfg.get("thrbig") > 0 {
                        *self.rng.pick(&[80usize, 110, 140])
                    } else {
                        *self.rng.pick(&[1usize, 2, 4, 8, 16, 30, 60, 100])
                    };
                    self.do_thr(f, t)
                }
            }
            "chk" => self.do_chk(false, &[]),
            "eqs" => self.do_eqs(),
            "mp" => {
                if !matches!(k.as_str(), "bss" | "mss") {
                    return;
                }
                let w = if self.rng.chance(50) { "path" } else { "cut" };
                let i = if self.rng.chance(60) && self.can_build() {
                    let f = self.main_forest();
                    let sp = self.rng.chance(25);
                    let t = self.monotone_table(f, sp);
                    self.build(f, &t)
                } else {
                    self.pick_h(|s| matches!(s.f, F::B | F::V) && !s.d.contains(&UNDET))
                };
                if let Some(i) = i {
                    if self.dead || self.hs[i].d.contains(&UNDET) {
                        return;
                    }
                    let no = self.hs[i].no;
                    if self.sum() {
                        self.do_mpc(w, i);
                        return;
                    }
                    self.do_mp(w, i);
                    if !self.dead && self.rng.chance(25) {
                        // once more: the same family
                        if let Some(i) = self.hs.iter().position(|s| s.no == no) {
                            self.do_mp(w, i);
                            if !self.dead && self.cfg.get("snap") > 0 {
                                if let Some(f) = self.hs.last().map(|s| s.f) {
                                    self.do_shared(f)
                                }
                            }
                        }
                    }
                    if !self.dead && self.rng.chance(40) {
                        let w2 = if w == "path" { "cut" } else { "path" };
                        if let Some(i) = self.hs.iter().position(|s| s.no == no) {
                            self.do_mp(w2, i);
                        }
                    }
                    if !self.dead && self.rng.chance(30) {
                        self.do_chk(true, if k == "mss" { &["C10"] } else { &["C09"] })
                    }
                }
            }
            "rpn" => {
                if matches!(k.as_str(), "bss" | "mss") && self.nexp > 0 {
                    self.random_rpn()
                }
            }
            "prob" | "bm" | "cnt" | "ext" | "lab" | "lvl" if !wrap => {}
            "prob" | "bm" => {
                if let Some(i) = self.pick_h(|s| matches!(s.f, F::B | F::V)) {
                    let (f, d) = (self.hs[i].f, self.hs[i].d.clone());
                    let sel = self.random_sel(f, &d);
                    // exact dyadic numbers need 8^n below 2^31
                    let m = if !self.sum() && self.ar.len() <= 9 && self.rng.chance(50) { 0 } else { 46337 };
                    if m == 0 && self.rng.chance(35) {
                        self.do_interval(i, &sel, act == "bm")
                    } else {
                        self.do_prob(i, &sel, m, act == "bm")
                    }
                }
            }
            "cnt" | "ext" => {
                if let Some(i) = self.pick_h(|s| nofill || s.f.zs()) {
                    let (f, d) = (self.hs[i].f, self.hs[i].d.clone());
                    let sel = self.random_sel(f, &d);
                    if act == "cnt" {
                        self.do_cnt(i, &sel, if self.sum() { 46337 } else { 0 })
                    } else if self.sum() && !self.few(i, &sel) {
                    } else {
                        let lazy = self.rng.chance(35);
                        self.do_ext(i, &sel, lazy)
                    }
                } else if act == "cnt" {
                    let i = self.rng.below(self.hs.len());
                    let (f, d) = (self.hs[i].f, self.hs[i].d.clone());
                    let sel = self.random_sel(f, &d);
                    self.do_cnt(i, &sel, 0)
                }
            }
            "lab" => {
                if let Some(i) = self.pick_h(|s| s.f == F::Y) {
                    self.do_lab(i)
                }
            }
            "garbage" => self.do_garbage(),
            "lvl" => {
                if let Some(i) = self.pick_h(|s| s.f == F::Y && !s.vs.is_empty()) {
                    let v = self.rng.range(-2, 5);
                    self.do_lvl(i, v)
                }
            }
            "dot" => {
                let i = self.rng.below(self.hs.len());
                self.do_dot(i)
            }
            "snap" => {
                let i = self.rng.below(self.hs.len());
                if self.rng.chance(25) {
                    self.do_shared(self.hs[i].f)
                } else {
                    self.do_snap(i)
                }
            }
            "clear" => self.do_clear(),
            "stale" => {
                if !self.stale() {
                    self.random_op();
                }
            }
            "churn" => self.churn(),
            "idem" => {
                if let Some(i) = self.pick_h(|_| true) {
                    let g = self.rng.chance(40) && self.cfg.get("gc") > 0;
                    self.idem(i, g);
                }
            }
            "flood" => {
                if !wrap || self.sum() || !self.full || (k != "zw" && self.hdr.contains(&9999)) {
                    return;
                }
                let fs: Vec<F> = self.sys.forests().into_iter().filter(|f| !(k == "mss" && *f == F::V)).collect();
                let f = if k == "mss" && self.cfg.get("floodbig") > 0 && self.rng.chance(80) { F::Y } else { *self.rng.pick(&fs) };
                let small = self.thr.contains(&f);
                if !small && self.cfg.get("floodbig") == 0 {
                    return;
                }
                if k == "bss" && f == F::Z && !small {
                    return;
                }
                self.do_flood(f, if small { 300 } else { 60_000 });
            }
            // an operator on operands of at most two nodes
            "sop" => {
                for _ in 0..40 {
                    if let Some((op, a, p)) = self.choose_op() {
                        if a.iter().all(|&i| self.small(i)) {
                            self.do_op(&op, &a, p);
                            break;
                        }
                    }
                }
            }
            "var" => {
                if wrap {
                    match self.rng.below(4) {
                        0 => self.redeclare(),
                        1 if self.rng.chance(self.cfg.or("fill", 30) as usize) => self.filler(),
                        _ => {
                            if self.undeclared().is_empty() {
                                self.redeclare()
                            } else {
                                self.declare_next()
                            }
                        }
                    }
                }
            }
            "sets" => {
                if k == "zw" {
                    let s = self.sets_lists();
                    self.do_sets(&s);
                }
            }
            // the same call again later: must give the same handle
            "redo" => {
                if let Some((op, a, p)) = self.choose_op() {
                    self.do_op(&op, &a, p);
                    if !self.dead && self.rng.chance(50) && self.cfg.get("gc") > 0 {
                        self.gc_any();
                    }
                    if !self.dead {
                        self.do_op(&op, &a, p);
                    }
                }
            }
            _ => {}
        }
    }
}
