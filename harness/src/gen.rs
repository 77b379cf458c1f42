//! Random histories of public calls, each logged as one event at its return.
use crate::sys::*;
use crate::util::*;
use std::collections::{HashMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone)]
pub struct OrdE {
    pub nm: String,
    pub k: usize,
    pub u: usize,
    /// number of a hidden variable (sum geometry), 0 otherwise
    pub hid: usize,
}
impl OrdE {
    pub fn uj(&self) -> i64 {
        if self.hid > 0 {
            -(self.hid as i64)
        } else {
            self.u as i64
        }
    }
}

/// Sum geometry: hidden variables that matter only through the class of their weighted sum.
pub struct Hid {
    pub k: Vec<usize>,
    pub w: Vec<usize>,
    pub m: usize,
    pub c: usize,
    pub names: Vec<String>,
    /// per class some assignments of the hidden variables
    pub reps: Vec<Vec<Vec<usize>>>,
}
impl Hid {
    pub fn classes(&self) -> usize {
        if self.m > 0 {
            self.m
        } else {
            self.c + 1
        }
    }
    pub fn cls(&self, q: usize) -> usize {
        if self.m > 0 {
            q % self.m
        } else {
            q.min(self.c)
        }
    }
    /// fills reps; false if some class is not reachable
    pub fn sample(&mut self, rng: &mut Rng, per: usize) -> bool {
        let n = self.k.len();
        let p = self.classes();
        // reach[j][q]: class q reachable by the first j variables
        let mut reach = vec![vec![false; p]; n + 1];
        reach[0][0] = true;
        for j in 0..n {
            for q in 0..p {
                if reach[j][q] {
                    for s in 0..self.k[j] {
                        let t = self.cls(q + self.w[j] * s);
                        reach[j + 1][t] = true;
                    }
                }
            }
        }
        if reach[n].iter().any(|x| !x) {
            return false;
        }
        self.reps = vec![vec![]; p];
        for q in 0..p {
            for _ in 0..per {
                let mut a = vec![0; n];
                let mut cur = q;
                for j in (0..n).rev() {
                    let mut opts = vec![];
                    for s in 0..self.k[j] {
                        if self.m > 0 {
                            let d = (self.w[j] * s) % p;
                            let b = (cur + p - d) % p;
                            if reach[j][b] {
                                opts.push((s, b));
                            }
                        } else {
                            for b in 0..p {
                                if reach[j][b] && self.cls(b + self.w[j] * s) == cur {
                                    opts.push((s, b));
                                }
                            }
                        }
                    }
                    let (s, b) = *rng.pick(&opts);
                    a[j] = s;
                    cur = b;
                }
                self.reps[q].push(a);
            }
        }
        true
    }
}

pub struct Slot {
    pub no: usize,
    pub h: Hd,
    pub d: Vec<i64>,
    pub f: F,
    pub rev: bool,
    pub vs: Vec<usize>,
    pub var: bool,
}

pub struct Cfg {
    pub w: HashMap<String, i64>,
}
impl Cfg {
    pub fn get(&self, k: &str) -> i64 {
        *self.w.get(k).unwrap_or(&0)
    }
    pub fn or(&self, k: &str, d: i64) -> i64 {
        *self.w.get(k).unwrap_or(&d)
    }
}

pub struct Ctx<'a> {
    pub rng: Rng,
    pub out: &'a mut Out,
    pub cfg: &'a Cfg,
    pub sys: Sys,
    pub ar: Vec<usize>,
    pub names: Vec<String>,
    pub n: usize,
    pub str_: Vec<usize>,
    pub dg: Vec<Vec<usize>>,
    pub full: bool,
    pub ord: Vec<OrdE>,
    pub hdr: Vec<usize>,
    pub hs: Vec<Slot>,
    pub next: usize,
    pub gcd: bool,
    pub salt: u64,
    pub dead: bool,
    pub nfill: usize,
    pub thr: HashSet<F>,
    /// operator calls made: operator, operands as (forest, id, hash of the function), parameter
    pub log: Vec<(String, Vec<(F, usize, u64)>, i64)>,
    pub hid: Option<Hid>,
    /// number of declarable explicit variables
    pub nexp: usize,
    pub variant: usize,
}

pub fn dhash(d: &[i64]) -> u64 {
    d.iter().fold(0xcbf2_9ce4_8422_2325u64, |h, &x| (h ^ x as u64).wrapping_mul(0x1_0000_01b3).rotate_left(17))
}
pub fn tagv(t: &[&str]) -> Vec<String> {
    t.iter().map(|s| s.to_string()).collect()
}

const LOGIC: [&str; 8] = ["and", "or", "xor", "not", "imp", "nand", "nor", "xnor"];
const ARITH: [&str; 7] = ["add", "sub", "mul", "div", "rem", "min", "max"];
const CMP: [&str; 6] = ["eq", "neq", "lt", "lte", "gt", "gte"];

impl<'a> Ctx<'a> {
    pub fn new(kind: &str, ar: Vec<usize>, names: Vec<String>, pts: Option<Vec<Vec<usize>>>, seed: u64, scale: i64, out: &'a mut Out, cfg: &'a Cfg) -> Ctx<'a> {
        let full = pts.is_none();
        let nexp = ar.len();
        let mut str_ = vec![];
        let mut n = 1;
        let dg = match pts {
            Some(p) => {
                n = p.len();
                p
            }
            None => {
                for &k in &ar {
                    str_.push(n);
                    n *= k;
                }
                (0..n)
                    .map(|i| ar.iter().enumerate().map(|(v, &k)| (i / str_[v]) % k).collect())
                    .collect()
            }
        };
        Ctx {
            rng: Rng(seed),
            out,
            cfg,
            sys: Sys::new(kind, scale),
            ar,
            names,
            n,
            str_,
            dg,
            full,
            ord: vec![],
            hdr: vec![],
            hs: vec![],
            next: 1,
            gcd: false,
            salt: seed ^ 0x5bd1_e995,
            dead: false,
            nfill: 0,
            thr: HashSet::new(),
            log: vec![],
            hid: None,
            nexp,
            variant: 0,
        }
    }
    /// sum geometry: ar are the explicit variables
    pub fn new_sum(kind: &str, ar: Vec<usize>, names: Vec<String>, hid: Hid, seed: u64, scale: i64, out: &'a mut Out, cfg: &'a Cfg) -> Ctx<'a> {
        let n = ar.len();
        let mut ar = ar;
        ar.push(hid.classes());
        let mut names = names;
        names.push("\u{1}".into());
        let mut c = Ctx::new(kind, ar, names, None, seed, scale, out, cfg);
        c.full = false;
        c.nexp = n;
        c.hid = Some(hid);
        c
    }
    /// universe index and hidden number of a variable name
    pub fn lookup(&self, nm: &str) -> (usize, usize) {
        if let Some(h) = &self.hid {
            if let Some(j) = h.names.iter().position(|x| x == nm) {
                return (0, j + 1);
            }
        }
        (self.names.iter().position(|x| x == nm).map(|x| x + 1).unwrap_or(0), 0)
    }
    pub fn sum(&self) -> bool {
        self.hid.is_some()
    }
    // -------------------------------------------------------- observation
    fn fill_state(&self, lv: usize, i: usize, k: usize) -> usize {
        let mut r = Rng(self.salt ^ ((lv as u64) << 32) ^ (i as u64 * 0x1_0001));
        r.below(k)
    }
    fn eval(&self, f: F, root: usize, i: usize, variant: usize) -> i64 {
        let p = &self.dg[i];
        let none = vec![];
        let rep: &Vec<usize> = match &self.hid {
            Some(h) => {
                let l = &h.reps[p[p.len() - 1]];
                &l[variant % l.len()]
            }
            None => &none,
        };
        let mut id = root;
        let mut bound = self.ord.len();
        let gap = |lo: usize, hi: usize| {
            (lo..hi).any(|l| {
                let o = &self.ord[l];
                (o.u > 0 && p[o.u - 1] > 0) || (o.hid > 0 && rep[o.hid - 1] > 0)
            })
        };
        loop {
            match self.sys.raw(f, id) {
                Raw::Bad => return BAD,
                Raw::U => return UNDET,
                Raw::T(v) => {
                    if f.zs() {
                        let decl: HashSet<usize> = self.ord.iter().map(|o| o.u).collect();
                        if gap(0, bound) || (0..self.nexp).any(|v| !decl.contains(&(v + 1)) && p[v] > 0) {
                            return f.null();
                        }
                    }
                    return v;
                }
                Raw::N(lv, ch) => {
                    if lv >= bound {
                        return BAD;
                    }
                    if f.zs() && gap(lv + 1, bound) {
                        return f.null();
                    }
                    let u = self.ord[lv].u;
                    let s = if u > 0 {
                        p[u - 1]
                    } else if self.ord[lv].hid > 0 {
                        rep[self.ord[lv].hid - 1]
                    } else if f.zs() {
                        0
                    } else {
                        self.fill_state(lv, i, self.ord[lv].k)
                    };
                    if s >= ch.len() {
                        return BAD;
                    }
                    id = ch[s];
                    bound = lv;
                }
            }
        }
    }
    pub fn den(&self, f: F, root: usize) -> Vec<i64> {
        let one = |i: usize| -> i64 {
            let a = self.eval(f, root, i, self.variant);
            // in a sum geometry the value may depend on the class only
            if self.sum() && self.eval(f, root, i, self.variant + 1) != a {
                return BAD;
            }
            a
        };
        match catch_unwind(AssertUnwindSafe(|| (0..self.n).map(one).collect())) {
            Ok(v) => v,
            Err(_) => vec![BAD; self.n],
        }
    }
    pub fn obs(&mut self, h: &Hd) -> (String, Vec<i64>) {
        self.out.intent(&tagv(&["C20", "C03"]), "observe");
        self.variant += 1;
        let f = h.f();
        let d = self.den(f, h.id());
        let r = catch_unwind(AssertUnwindSafe(|| self.sys.root(h)));
        match r {
            Ok(o) => (
                format!(
                    "{{\"f\":\"{}\",\"id\":{},\"d\":{},\"lv\":{},\"lb\":{},\"ch\":{}}}",
                    o.f.s(),
                    o.id,
                    jarr(&d),
                    o.lv,
                    jstr(&o.lb),
                    jarr(&o.ch)
                ),
                d,
            ),
            Err(_) => (
                format!(
                    "{{\"f\":\"{}\",\"id\":{},\"d\":{},\"lv\":-9,\"lb\":\"\",\"ch\":[]}}",
                    f.s(),
                    h.id(),
                    jarr(&vec![BAD; self.n])
                ),
                vec![BAD; self.n],
            ),
        }
    }
    pub fn st(&self) -> String {
        let v: Vec<String> =
            self.sys.st().iter().map(|(f, a, b)| format!("\"{}\":[{},{}]", f.s(), a, b)).collect();
        format!("{{{}}}", v.join(","))
    }
    pub fn vo(&self) -> String {
        let v = match catch_unwind(AssertUnwindSafe(|| self.sys.varorder())) {
            Ok(v) => v,
            Err(_) => return "[[\"<panic>\",0,0]]".into(),
        };
        let v: Vec<String> = v
            .iter()
            .map(|(nm, k)| {
                let (u, hid) = self.lookup(nm);
                format!("[{},{},{}]", jstr(nm), k, if hid > 0 { -(hid as i64) } else { u as i64 })
            })
            .collect();
        format!("[{}]", v.join(","))
    }
    /// Call into the code under test; a panic is an event and ends the episode.
    pub fn call<T>(&mut self, tags: Vec<String>, what: &str, f: impl FnOnce(&mut Sys) -> T) -> Option<T> {
        self.out.intent(&tags, what);
        let sys = &mut self.sys;
        match catch_unwind(AssertUnwindSafe(|| f(sys))) {
            Ok(x) => Some(x),
            Err(e) => {
                let msg = e
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                let m: String = format!("{}: {}", what, msg).chars().take(200).collect();
                self.out.line(&format!(
                    "{{\"e\":\"panic\",\"tg\":{},\"msg\":{}}}",
                    jstrs(&tags),
                    jstr(&m)
                ));
                self.dead = true;
                None
            }
        }
    }
    pub fn op_tags(&self, op: &str, fs: &[F]) -> Vec<String> {
        let k = self.sys.kind.as_str();
        let mv = k == "mtmdd2" || k == "mss";
        let b = fs.iter().all(|&f| f == F::B);
        let v = fs.iter().all(|&f| f == F::V);
        let mut t = if ["union", "intersect", "setdiff", "product", "divide"].contains(&op) {
            tagv(&["C05"])
        } else if op == "yintersect" || op == "ysetdiff" {
            tagv(&["C16"])
        } else if k == "bdd" || k == "bss" {
            tagv(&["C01"])
        } else if CMP.contains(&op) {
            tagv(&["C08"])
        } else if op == "vif" {
            tagv(&["C08"])
        } else if op == "ite" {
            let mut t = vec![];
            if mv {
                t.push("C08".to_string());
            }
            if fs[1] == F::B {
                t.push("C06".to_string());
            }
            t
        } else if LOGIC.contains(&op) {
            tagv(if b { &["C06"] } else { &["C08"] })
        } else if ARITH.contains(&op) {
            tagv(if v { &["C07"] } else { &["C08"] })
        } else if op == "andn" || op == "orn" {
            tagv(&["C06"])
        } else if op == "minn" || op == "maxn" {
            tagv(&["C07"])
        } else if op == "replace" {
            tagv(if b { &["C06"] } else { &["C07"] })
        } else {
            tagv(&["C20"])
        };
        if self.gcd {
            t.push("C03".to_string());
        }
        t
    }

    // -------------------------------------------------------- episode start
    pub fn reset(&mut self) {
        let ordj: Vec<String> =
            self.ord.iter().map(|o| format!("[{},{},{}]", jstr(&o.nm), o.k, o.uj())).collect();
        let pts: Vec<String> = if self.full || self.sum() { vec![] } else { self.dg.iter().map(|p| jarr(p)).collect() };
        let s = format!(
            "{{\"e\":\"reset\",\"k\":\"{}\",\"ar\":{},\"full\":{}{},\"pts\":[{}],\"ord\":[{}],\"st\":{}}}",
            self.sys.kind,
            jarr(&self.ar[..self.nexp]),
            if self.sum() { 2 } else { self.full as i32 },
            match &self.hid {
                Some(h) => format!(
                    ",\"hk\":{},\"hw\":{},\"hm\":{},\"hc\":{}",
                    jarr(&h.k),
                    jarr(&h.w),
                    h.m,
                    h.c
                ),
                None => String::new(),
            },
            pts.join(","),
            ordj.join(","),
            self.st()
        );
        self.out.line(&s);
    }
    /// engine managers: fix the variable order (with fillers) up front
    pub fn core_order(&mut self, fillers: usize) {
        let mut es: Vec<OrdE> = (0..self.nexp)
            .map(|v| OrdE { nm: self.names[v].clone(), k: self.ar[v], u: v + 1, hid: 0 })
            .collect();
        if let Some(h) = &self.hid {
            for j in 0..h.k.len() {
                es.push(OrdE { nm: h.names[j].clone(), k: h.k[j], u: 0, hid: j + 1 });
            }
        }
        self.rng.shuffle(&mut es);
        let bin = matches!(self.sys.kind.as_str(), "bdd" | "zdd");
        for _ in 0..fillers {
            let p = self.rng.below(es.len() + 1);
            self.nfill += 1;
            let k = if bin { 2 } else { 2 + self.rng.below(3) };
            es.insert(p, OrdE { nm: format!("f{}", self.nfill), k, u: 0, hid: 0 });
        }
        for (l, e) in es.iter().enumerate() {
            let h = self.sys.header(l, &e.nm, e.k);
            self.hdr.push(h);
        }
        self.ord = es;
    }
    pub fn push(&mut self, h: Hd, d: Vec<i64>, rev: bool, vs: Vec<usize>, var: bool) -> usize {
        let no = self.next;
        self.next += 1;
        if d.contains(&BAD) {
            self.dead = true;
        }
        let f = h.f();
        self.hs.push(Slot { no, h, d, f, rev, vs, var });
        self.hs.len() - 1
    }
    fn nextno(&self) -> usize {
        self.next
    }

    // -------------------------------------------------------- calls
    pub fn do_var(&mut self, nm: &str, k: usize) -> Option<usize> {
        let h = self.call(tagv(&["C18"]), "declare", |s| s.defvar(nm, k))?;
        let (u, hid) = self.lookup(nm);
        if !self.ord.iter().any(|o| o.nm == nm) {
            self.ord.push(OrdE { nm: nm.to_string(), k, u, hid });
            self.hdr.push(self.sys.header_id(&h).or_else(|| self.sys.header_named(&h, nm)).unwrap_or(9999));
        } else if let Some(p) = self.ord.iter().position(|o| o.nm == nm) {
            if self.hdr[p] == 9999 {
                self.hdr[p] = self.sys.header_id(&h).unwrap_or(9999);
            }
        }
        let (o, d) = self.obs(&h);
        let line = format!(
            "{{\"e\":\"var\",\"nm\":{},\"u\":{},\"k\":{},\"h\":{},\"o\":{},\"vo\":{},\"nv\":{},\"st\":{}}}",
            jstr(nm),
            if hid > 0 { -(hid as i64) } else { u as i64 },
            k,
            self.nextno(),
            o,
            self.vo(),
            self.sys.sizes().0,
            self.st()
        );
        self.out.line(&line);
        if u == 0 {
            self.next += 1;
            drop(h);
            return None;
        }
        Some(self.push(h, d, false, vec![], true))
    }
    pub fn do_const(&mut self, f: F, c: i64) -> Option<usize> {
        let tg = match f {
            F::Z => "C05",
            F::V => "C07",
            F::Y => "C16",
            F::B if self.sys.kind == "bdd" || self.sys.kind == "bss" => "C01",
            F::B => "C06",
        };
        let h = self.call(tagv(&[tg]), "constant", |s| s.constant(f, c))?;
        let (o, d) = self.obs(&h);
        let line = format!(
            "{{\"e\":\"const\",\"f\":\"{}\",\"c\":{},\"h\":{},\"o\":{},\"st\":{}}}",
            f.s(),
            c,
            self.nextno(),
            o,
            self.st()
        );
        self.out.line(&line);
        Some(self.push(h, d, false, vec![], false))
    }
    pub fn do_create(&mut self, lv: usize, a: &[usize]) -> Option<usize> {
        let hid = self.hdr[lv];
        let hds: Vec<Hd> = a.iter().map(|&i| self.hs[i].h.dup()).collect();
        let h = self.call(tagv(&["C20"]), "create_node", |s| {
            let r: Vec<&Hd> = hds.iter().collect();
            s.create(hid, &r)
        });
        drop(hds);
        let h = h?;
        let (o, d) = self.obs(&h);
        let nos: Vec<usize> = a.iter().map(|&i| self.hs[i].no).collect();
        let line = format!(
            "{{\"e\":\"create\",\"lv\":{},\"a\":{},\"h\":{},\"o\":{},\"st\":{}}}",
            lv + 1,
            jarr(&nos),
            self.nextno(),
            o,
            self.st()
        );
        self.out.line(&line);
        Some(self.push(h, d, false, vec![], false))
    }
    pub fn do_op(&mut self, op: &str, a: &[usize], p: i64) -> Option<usize> {
        let fs: Vec<F> = a.iter().map(|&i| self.hs[i].f).collect();
        let tags = self.op_tags(op, &fs);
        if self.cfg.get("stale") > 0 || self.cfg.get("churn") > 0 {
            let key = a.iter().map(|&i| (self.hs[i].f, self.hs[i].h.id(), dhash(&self.hs[i].d))).collect();
            let e = (op.to_string(), key, p);
            if !self.log.contains(&e) {
                if self.log.len() > 150 {
                    let j = self.rng.below(self.log.len());
                    self.log.swap_remove(j);
                }
                self.log.push(e);
            }
        }
        let slots = std::mem::take(&mut self.hs);
        let h = {
            let r: Vec<&Hd> = a.iter().map(|&i| &slots[i].h).collect();
            self.call(tags, op, |s| s.op(op, &r, p))
        };
        self.hs = slots;
        let h = h?;
        let (o, d) = self.obs(&h);
        let nos: Vec<usize> = a.iter().map(|&i| self.hs[i].no).collect();
        let line = format!(
            "{{\"e\":\"op\",\"op\":\"{}\",\"a\":{},\"p\":{},\"h\":{},\"o\":{},\"st\":{}}}",
            op,
            jarr(&nos),
            p,
            self.nextno(),
            o,
            self.st()
        );
        self.out.line(&line);
        let (rev, vs) = match a.first() {
            Some(&i) if fs[0] == F::Y => (self.hs[i].rev, self.hs[i].vs.clone()),
            _ => (false, vec![]),
        };
        Some(self.push(h, d, rev, vs, false))
    }
    /// the same operator call again with cleared computed tables
    pub fn do_wc(&mut self, op: &str, a: &[usize], p: i64, res: usize) {
        let fs: Vec<F> = a.iter().map(|&i| self.hs[i].f).collect();
        let _ = fs;
        if self.call(tagv(&["C17"]), "clear_cache", |s| s.clear()).is_none() {
            return;
        }
        let line = format!("{{\"e\":\"clear\",\"cs\":{},\"st\":{}}}", self.sys.sizes().1, self.st());
        self.out.line(&line);
        let slots = std::mem::take(&mut self.hs);
        let h = {
            let r: Vec<&Hd> = a.iter().map(|&i| &slots[i].h).collect();
            self.call(tagv(&["C17"]), op, |s| s.op(op, &r, p))
        };
        self.hs = slots;
        if let Some(h) = h {
            let (o, _) = self.obs(&h);
            let line = format!(
                "{{\"e\":\"wc\",\"h\":{},\"o\":{},\"st\":{}}}",
                self.hs[res].no,
                o,
                self.st()
            );
            self.out.line(&line);
        }
    }
    pub fn do_sets(&mut self, sets: &[Vec<usize>]) -> Option<usize> {
        let named: Vec<Vec<String>> =
            sets.iter().map(|s| s.iter().map(|&v| self.names[v].clone()).collect()).collect();
        let h = self.call(tagv(&["C05"]), "from_sets", |s| s.from_sets(&named))?;
        for (nm, k) in self.sys.varorder() {
            if !self.ord.iter().any(|o| o.nm == nm) {
                let (u, hid) = self.lookup(&nm);
                self.ord.push(OrdE { nm, k, u, hid });
                self.hdr.push(9999);
            }
        }
        let (o, d) = self.obs(&h);
        let sj: Vec<String> =
            sets.iter().map(|s| jarr(&s.iter().map(|v| v + 1).collect::<Vec<_>>())).collect();
        let line = format!(
            "{{\"e\":\"sets\",\"sets\":[{}],\"vo\":{},\"h\":{},\"o\":{},\"st\":{}}}",
            sj.join(","),
            self.vo(),
            self.nextno(),
            o,
            self.st()
        );
        self.out.line(&line);
        Some(self.push(h, d, false, vec![], false))
    }
    pub fn do_clone(&mut self, i: usize) {
        let h = self.hs[i].h.dup();
        let (o, d) = self.obs(&h);
        let line =
            format!("{{\"e\":\"clone\",\"a\":{},\"h\":{},\"o\":{}}}", self.hs[i].no, self.nextno(), o);
        self.out.line(&line);
        let (rev, vs) = (self.hs[i].rev, self.hs[i].vs.clone());
        self.push(h, d, rev, vs, false);
    }
    /// many short-lived clones of one handle: no net effect
    pub fn storm(&mut self, i: usize, m: usize) {
        self.out.intent(&tagv(&["C03", "C04"]), "clone storm");
        let r = catch_unwind(AssertUnwindSafe(|| {
            let v: Vec<Hd> = (0..m).map(|_| self.hs[i].h.dup()).collect();
            drop(v);
        }));
        if r.is_err() {
            self.out.line("{\"e\":\"panic\",\"tg\":[\"C03\",\"C04\"],\"msg\":\"clone storm\"}");
            self.dead = true;
        }
    }
    pub fn do_child(&mut self, i: usize) {
        let slots = std::mem::take(&mut self.hs);
        let ch = self.call(tagv(&["C20"]), "get_children", |s| s.children(&slots[i].h));
        self.hs = slots;
        if let Some(Some(mut c)) = ch {
            let k = self.rng.below(c.len());
            let h = c.swap_remove(k);
            drop(c);
            let (o, d) = self.obs(&h);
            let line = format!(
                "{{\"e\":\"child\",\"a\":{},\"i\":{},\"h\":{},\"o\":{}}}",
                self.hs[i].no,
                k,
                self.nextno(),
                o
            );
            self.out.line(&line);
            self.push(h, d, false, vec![], false);
        }
    }
    pub fn do_drop(&mut self, idx: &mut Vec<usize>) {
        idx.sort();
        idx.dedup();
        if idx.is_empty() {
            return;
        }
        let nos: Vec<usize> = idx.iter().map(|&i| self.hs[i].no).collect();
        self.out.intent(&tagv(&["C03", "C04"]), "drop");
        for &i in idx.iter().rev() {
            let s = self.hs.remove(i);
            if catch_unwind(AssertUnwindSafe(move || drop(s))).is_err() {
                self.out.line("{\"e\":\"panic\",\"tg\":[\"C03\",\"C04\"],\"msg\":\"drop\"}");
                self.dead = true;
                return;
            }
        }
        self.out.line(&format!("{{\"e\":\"drop\",\"l\":{}}}", jarr(&nos)));
    }
    pub fn do_clear(&mut self) {
        if self.call(tagv(&["C17"]), "clear_cache", |s| s.clear()).is_some() {
            let line = format!("{{\"e\":\"clear\",\"cs\":{},\"st\":{}}}", self.sys.sizes().1, self.st());
            self.out.line(&line);
        }
    }
    fn reach(&self, f: F) -> usize {
        let mut seen: HashSet<usize> = HashSet::new();
        let mut stack: Vec<usize> = self.hs.iter().filter(|s| s.f == f).map(|s| s.h.id()).collect();
        if matches!(f, F::B | F::Z) {
            seen.extend([0, 1, 2]);
        } else {
            seen.insert(0);
        }
        let mut cnt = seen.len();
        while let Some(x) = stack.pop() {
            if seen.insert(x) {
                cnt += 1;
                if let Raw::N(_, c) = self.sys.raw(f, x) {
                    stack.extend(c);
                }
            }
        }
        cnt
    }
    pub fn do_gc(&mut self, fs: &[F]) {
        // engine managers: sometimes leave out roots that other roots reach
        let mut keep: Vec<usize> = (0..self.hs.len()).collect();
        if !self.sys.wrapper() && self.rng.chance(40) && (self.full || self.sum()) {
            let mut below: HashSet<(F, usize)> = HashSet::new();
            for s in &self.hs {
                let mut stack = match self.sys.raw(s.f, s.h.id()) {
                    Raw::N(_, c) => c,
                    _ => vec![],
                };
                while let Some(x) = stack.pop() {
                    if below.insert((s.f, x)) {
                        if let Raw::N(_, c) = self.sys.raw(s.f, x) {
                            stack.extend(c);
                        }
                    }
                }
            }
            keep.retain(|&i| !below.contains(&(self.hs[i].f, self.hs[i].h.id())));
        } else if self.sys.kind != "zw" && self.sys.wrapper() && self.rng.chance(50) {
            // wrappers: live handles are roots already
            keep.retain(|&i| {
                let f = self.hs[i].f;
                f == F::Z || f == F::Y || self.rng.chance(30)
            });
        }
        self.rng.shuffle(&mut keep);
        let slots = std::mem::take(&mut self.hs);
        let r = {
            let k: Vec<&Hd> = keep.iter().map(|&i| &slots[i].h).collect();
            self.call(tagv(&["C03", "C04"]), "gc", |s| s.gc(fs, &k))
        };
        self.hs = slots;
        if r.is_none() {
            return;
        }
        self.gcd = true;
        let fj: Vec<String> = fs.iter().map(|f| format!("\"{}\"", f.s())).collect();
        let rj: Vec<String> = if self.full || self.sum() {
            vec![]
        } else {
            fs.iter().map(|&f| format!("\"{}\":{}", f.s(), self.reach(f))).collect()
        };
        let line = format!(
            "{{\"e\":\"gc\",\"f\":[{}],\"st\":{},\"reach\":{{{}}}}}",
            fj.join(","),
            self.st(),
            rj.join(",")
        );
        self.out.line(&line);
    }
    pub fn do_thr(&mut self, f: F, t: usize) {
        self.sys.set_threshold(f, t);
        self.gcd = true;
        self.thr.insert(f);
        let g = if self.sys.kind == "mss" { "\"b\",\"v\"".to_string() } else { format!("\"{}\"", f.s()) };
        self.out.line(&format!("{{\"e\":\"thr\",\"f\":[{}],\"t\":{}}}", g, t));
    }
    /// observe live handles again
    pub fn do_chk(&mut self, all: bool, tg: &[&str]) {
        let mut l = vec![];
        for i in 0..self.hs.len() {
            if all || self.rng.chance(30) {
                let h = self.hs[i].h.dup();
                let (o, d) = self.obs(&h);
                if d.contains(&BAD) {
                    self.dead = true;
                }
                l.push(format!("{{\"h\":{},\"o\":{}}}", self.hs[i].no, o));
            }
        }
        self.out.line(&format!("{{\"e\":\"chk\",\"l\":[{}],\"tg\":{}}}", l.join(","), jstrs(&tagv(tg))));
    }
    pub fn do_eqs(&mut self) {
        let mut l = vec![];
        for _ in 0..12 {
            let i = self.rng.below(self.hs.len());
            let j = self.rng.below(self.hs.len());
            if self.hs[i].f == self.hs[j].f {
                let e = self.sys.eq(&self.hs[i].h, &self.hs[j].h);
                l.push(format!("[{},{},{}]", self.hs[i].no, self.hs[j].no, e as i32));
            }
        }
        self.out.line(&format!("{{\"e\":\"eqs\",\"l\":[{}]}}", l.join(",")));
    }
    pub fn do_mp(&mut self, w: &str, i: usize) -> Option<usize> {
        let tg = if self.sys.kind == "mss" { "C10" } else { "C09" };
        let slots = std::mem::take(&mut self.hs);
        let tags = if self.gcd { tagv(&[tg, "C03"]) } else { tagv(&[tg]) };
        let r = self.call(tags, "minimal vectors", |s| s.minsol(w, &slots[i].h));
        self.hs = slots;
        let r = r?;
        let no = self.nextno();
        match r {
            None => {
                let line = format!(
                    "{{\"e\":\"mp\",\"w\":\"{}\",\"a\":{},\"r\":0,\"h\":{},\"o\":{{\"f\":\"\"}},\"st\":{}}}",
                    w,
                    self.hs[i].no,
                    no,
                    self.st()
                );
                self.out.line(&line);
                self.next += 1;
                None
            }
            Some(h) => {
                let (o, d) = self.obs(&h);
                let line = format!(
                    "{{\"e\":\"mp\",\"w\":\"{}\",\"a\":{},\"r\":1,\"h\":{},\"o\":{},\"st\":{}}}",
                    w,
                    self.hs[i].no,
                    no,
                    o,
                    self.st()
                );
                self.out.line(&line);
                let vs: Vec<usize> = self.ord.iter().filter(|o| o.u > 0).map(|o| o.u).collect();
                Some(self.push(h, d, w == "cut", vs, false))
            }
        }
    }

    /// minimal vectors over many variables: numbers per label and some members
    pub fn do_mpc(&mut self, w: &str, i: usize) {
        let mss = self.sys.kind == "mss";
        let tg = if mss { "C10" } else { "C09" };
        // the specification keeps track of sets of classes: few distinct weights only
        if let Some(h) = &self.hid {
            let mut w: Vec<usize> = h.w.iter().map(|&x| h.cls(x)).filter(|&x| x > 0).collect();
            w.sort();
            w.dedup();
            if w.len() > 3 {
                return;
            }
        }
        let md = |x: u64| (x % 46337) as i64;
        let slots = std::mem::take(&mut self.hs);
        let small = self.ord.iter().map(|o| o.k as f64).product::<f64>() < 30000.0;
        type R = (Vec<(i64, i64)>, Vec<(i64, Result<Vec<String>, HashMap<String, usize>>)>);
        let r: Option<Option<R>> = self.call(tagv(&[tg]), "minimal vectors", |s| {
            let h = s.minsol(w, &slots[i].h)?;
            Some(match &h {
                Hd::Z(n) => {
                    let c = s.count(&h, &[1]);
                    let it: Vec<_> = n.extract(&[true]).take(25).map(|x| (1, Ok(x))).collect();
                    (vec![(1, md(c))], it)
                }
                Hd::Y(n) => {
                    let mut cs = vec![];
                    let mut it = vec![];
                    for lb in n.labels() {
                        cs.push((lb, md(s.count(&h, &[lb]))));
                        let one: HashSet<i64> = [lb].into_iter().collect();
                        if !small {
                            continue;
                        }
                        it.extend(n.extract(&one).take(10).map(|x| (lb, Err(x))));
                    }
                    (cs, it)
                }
                _ => unreachable!(),
            })
        });
        self.hs = slots;
        let r = match r {
            Some(r) => r,
            None => return,
        };
        let some = r.is_some();
        let (cs, items) = r.unwrap_or_default();
        let iv: Vec<String> = items
            .iter()
            .map(|(lb, x)| {
                let v = match x {
                    Ok(l) => self.lit_vec(l, true),
                    Err(m) => {
                        let mut v = self.map_vec(m, Some(w == "cut"));
                        let unset = v.iter().any(|&y| y == -1);
                        if unset {
                            // variables not declared yet do not occur
                            for y in v.iter_mut() {
                                if *y == -1 {
                                    *y = 0;
                                }
                            }
                        }
                        v
                    }
                };
                format!("[{},{}]", lb, jarr(&v))
            })
            .collect();
        let line = format!(
            "{{\"e\":\"mpc\",\"w\":\"{}\",\"a\":{},\"r\":{},\"cs\":[{}],\"items\":[{}],\"m\":46337,\"st\":{}}}",
            w,
            self.hs[i].no,
            some as i32,
            cs.iter().map(|x| format!("[{},{}]", x.0, x.1)).collect::<Vec<_>>().join(","),
            iv.join(","),
            self.st()
        );
        self.out.line(&line);
    }

    /// few enough assignments to enumerate
    pub fn few(&mut self, i: usize, sel: &[i64]) -> bool {
        // an enumeration may visit every path of the diagram
        let paths: f64 = self.ord.iter().map(|o| o.k as f64).product();
        if paths > 30000.0 {
            return false;
        }
        let tags = if matches!(self.sys.kind.as_str(), "bss" | "zw") { tagv(&["C13"]) } else { tagv(&["C14"]) };
        let slots = std::mem::take(&mut self.hs);
        let r = self.call(tags, "count", |s| s.count(&slots[i].h, sel));
        self.hs = slots;
        r.map(|c| c <= 3000).unwrap_or(false)
    }
    /// a function of many variables through the public operators instead of create_node
    pub fn wide(&mut self) {
        let h = match &self.hid {
            Some(h) => h,
            None => return,
        };
        let v = self.nexp;
        if h.m > 0 {
            // parity, or the sum modulo m: only where the operators express it directly
            if self.sys.kind == "bss" && h.m == 2 {
                let nm: Vec<String> = (0..h.k.len()).filter(|&j| h.w[j] % 2 == 1).map(|j| h.names[j].clone()).collect();
                let t: Vec<i64> = self.dg.iter().map(|p| (p[v] == 1) as i64).collect();
                let mut nm = nm;
                self.rng.shuffle(&mut nm);
                let r = self.call(tagv(&["C01"]), "xor of many", |s| {
                    let mut a = s.constant(F::B, 0);
                    for x in &nm {
                        let y = s.defvar(x, 2);
                        a = s.op("xor", &[&a, &y], 0);
                    }
                    a
                });
                if let Some(hd) = r {
                    self.log_mk(F::B, &t, &["C01"], hd);
                }
            }
            return;
        }
        let c = h.c;
        let mut idx: Vec<usize> = (0..h.k.len()).filter(|&j| h.w[j] > 0).collect();
        let (names, k, w) = (h.names.clone(), h.k.clone(), h.w.clone());
        self.rng.shuffle(&mut idx);
        match self.sys.kind.as_str() {
            "bss" => {
                let th = 1 + self.rng.below(c);
                let t: Vec<i64> = self.dg.iter().map(|p| (p[v] >= th) as i64).collect();
                let way = self.rng.below(3);
                let r = self.call(tagv(&["C01"]), "k of many", |s| {
                    let mut vs = vec![];
                    for &j in &idx {
                        for _ in 0..w[j] {
                            vs.push(s.defvar(&names[j], 2));
                        }
                    }
                    if way == 0 && th == 1 {
                        let r: Vec<&Hd> = vs.iter().collect();
                        s.op("orn", &r, 0)
                    } else if way == 1 {
                        // at least th of n fails exactly when more than n - th are down
                        let nv: Vec<Hd> = vs.iter().map(|x| s.op("not", &[x], 0)).collect();
                        let r: Vec<&Hd> = nv.iter().collect();
                        let q = (vs.len() + 1).saturating_sub(th);
                        let d = s.op("kofn", &r, q as i64);
                        s.op("not", &[&d], 0)
                    } else {
                        let r: Vec<&Hd> = vs.iter().collect();
                        s.op("kofn", &r, th as i64)
                    }
                });
                if let Some(hd) = r {
                    self.log_mk(F::B, &t, &["C01"], hd);
                }
            }
            "mss" => {
                let t: Vec<i64> = self.dg.iter().map(|p| p[v] as i64).collect();
                let r = self.call(tagv(&["C07"]), "capped sum of many", |s| {
                    let cap = s.constant(F::V, c as i64);
                    let mut a = s.constant(F::V, 0);
                    for &j in &idx {
                        let x = s.defvar(&names[j], k[j]);
                        let y = if w[j] == 1 {
                            x
                        } else {
                            let q = s.constant(F::V, w[j] as i64);
                            s.op("mul", &[&x, &q], 0)
                        };
                        a = s.op("add", &[&a, &y], 0);
                        a = s.op("min", &[&a, &cap], 0);
                    }
                    a
                });
                if let Some(hd) = r {
                    self.log_mk(F::V, &t, &["C07"], hd);
                }
            }
            _ => {}
        }
    }

    // -------------------------------------------------------- queries
    fn vecs_json(&self, v: &[Vec<i64>]) -> String {
        jarr(&v.iter().map(|x| jarr(x)).collect::<Vec<_>>())
    }
    fn map_vec(&self, m: &HashMap<String, usize>, base: Option<bool>) -> Vec<i64> {
        let mut v = vec![-1i64; self.width()];
        let mut bad = false;
        for (nm, s) in m {
            if let Some(p) = self.vpos(nm) {
                v[p] = *s as i64;
            } else {
                match (base, self.ord.iter().find(|o| &o.nm == nm)) {
                    (Some(rev), Some(o)) => {
                        if *s != if rev { o.k - 1 } else { 0 } {
                            bad = true;
                        }
                    }
                    (None, Some(_)) => {}
                    _ => bad = true,
                }
            }
        }
        if bad {
            v[0] = BAD;
        }
        v
    }
    fn lit_vec(&self, lits: &[String], set: bool) -> Vec<i64> {
        let mut v = vec![if set { 0i64 } else { -1 }; self.width()];
        for l in lits {
            let (nm, val) = match l.strip_prefix('~') {
                Some(x) => (x, 0),
                None => (l.as_str(), 1),
            };
            match self.vpos(nm) {
                Some(p) => {
                    if v[p] != if set { 0 } else { -1 } {
                        v[0] = BAD;
                    } else {
                        v[p] = val
                    }
                }
                None if self.sum() && self.ord.iter().any(|o| o.nm == nm) => {}
                None => v[0] = BAD,
            }
        }
        v
    }
    /// enumerated vectors: explicit variables, then hidden ones
    fn width(&self) -> usize {
        self.nexp + self.hid.as_ref().map(|h| h.k.len()).unwrap_or(0)
    }
    fn vpos(&self, nm: &str) -> Option<usize> {
        match self.lookup(nm) {
            (_, j) if j > 0 => Some(self.nexp + j - 1),
            (u, _) if u > 0 => Some(u - 1),
            _ => None,
        }
    }
    /// enumerate, optionally interleaving other calls with the running iterator
    pub fn do_ext(&mut self, i: usize, sel: &[i64], lazy: bool) {
        let f = self.hs[i].f;
        let no = self.hs[i].no;
        let rev = self.hs[i].rev;
        let bs: Vec<bool> = sel.iter().map(|&x| x == 1).collect();
        let hs: HashSet<i64> = sel.iter().cloned().collect();
        let tags = if matches!(self.sys.kind.as_str(), "bss" | "zw") { tagv(&["C13"]) } else { tagv(&["C14"]) };
        enum It {
            B(bss::prelude::BddPath),
            Z(bss::prelude::ZddPath),
            M(mss::prelude::MddPath<i64>),
            Y(mss::prelude::ZmddPath<i64>),
        }
        let h = self.hs[i].h.dup();
        let it = self.call(tags.clone(), "extract", |_| match &h {
            Hd::B(n) => It::B(n.bdd_extract(&bs)),
            Hd::Z(n) => It::Z(n.extract(&bs)),
            Hd::M(n) => It::M(n.mdd_extract(&hs)),
            Hd::Y(n) => It::Y(n.extract(&hs)),
            _ => unreachable!(),
        });
        drop(h);
        let mut it = match it {
            Some(x) => x,
            None => return,
        };
        let mut items: Vec<Vec<i64>> = vec![];
        let mut total = 0;
        loop {
            let names: Option<Option<Vec<i64>>> = {
                self.out.intent(&tags, "extract next");
                let me = &*self;
                match catch_unwind(AssertUnwindSafe(|| match &mut it {
                    It::B(x) => x.next().map(|l| me.lit_vec(&l, false)),
                    It::Z(x) => x.next().map(|l| me.lit_vec(&l, true)),
                    It::M(x) => x.next().map(|m| me.map_vec(&m, None)),
                    It::Y(x) => x.next().map(|m| me.map_vec(&m, Some(rev))),
                })) {
                    Ok(v) => Some(v),
                    Err(_) => None,
                }
            };
            match names {
                None => {
                    self.call(tags, "extract next", |_| panic!("extract panicked"));
                    return;
                }
                Some(None) => break,
                Some(Some(v)) => items.push(v),
            }
            if self.sum() && items.len() > 60 {
                // the first ones in detail, the rest counted
                let rest = catch_unwind(AssertUnwindSafe(|| match &mut it {
                    It::B(x) => x.take(20000).count(),
                    It::Z(x) => x.take(20000).count(),
                    It::M(x) => x.take(20000).count(),
                    It::Y(x) => x.take(20000).count(),
                }));
                match rest {
                    Ok(r) => total = items.len() + r,
                    Err(_) => {
                        self.call(tags, "extract next", |_| panic!("extract panicked"));
                        return;
                    }
                }
                break;
            }
            if items.len() > 600 {
                break;
            }
            if lazy && self.rng.chance(30) && !self.dead {
                match self.rng.below(4) {
                    0 => self.do_clear(),
                    1 if self.cfg.get("gc") > 0 => self.gc_any(),
                    _ => {
                        self.random_op();
                    }
                }
                if self.dead {
                    return;
                }
            }
        }
        if self.sum() {
            let n = total.max(items.len()) % 46337;
            let line = format!(
                "{{\"e\":\"exth\",\"h\":{},\"sel\":{},\"items\":{},\"n\":{},\"m\":46337}}",
                no,
                jarr(sel),
                self.vecs_json(&items),
                n
            );
            self.out.line(&line);
            return;
        }
        let line = format!(
            "{{\"e\":\"ext\",\"h\":{},\"sel\":{},\"items\":{},\"rev\":{}}}",
            no,
            jarr(sel),
            self.vecs_json(&items),
            rev as i32
        );
        let _ = f;
        self.out.line(&line);
    }
    pub fn do_cnt(&mut self, i: usize, sel: &[i64], m: i64) {
        let tags = if matches!(self.sys.kind.as_str(), "bss" | "zw") { tagv(&["C13"]) } else { tagv(&["C14"]) };
        let bs: Vec<bool> = sel.iter().map(|&x| x == 1).collect();
        let hset: HashSet<i64> = sel.iter().cloned().collect();
        let tall = self.hid.as_ref().map_or(false, |h| h.k.iter().map(|&x| (x as f64).log2()).sum::<f64>() > 56.0);
        let modular = m == 46337 && !matches!(self.hs[i].f, F::Y) && (tall || self.rng.chance(30));
        let slots = std::mem::take(&mut self.hs);
        let r = self.call(tags, "count", |s| {
            if modular {
                let c = s.count_mod(&slots[i].h, sel) as u64;
                if tall {
                    return (c, c);
                }
                let l = s.count(&slots[i].h, sel);
                return (c, l);
            }
            let c = s.count(&slots[i].h, sel);
            let l = match &slots[i].h {
                Hd::B(n) => n.bdd_extract(&bs).len(),
                Hd::Z(n) => n.extract(&bs).len(),
                Hd::M(n) => n.mdd_extract(&hset).len(),
                _ => c,
            };
            (c, l)
        });
        self.hs = slots;
        if let Some((c, l)) = r {
            let md = |x: u64| if m == 0 { x as i64 } else { (x % m as u64) as i64 };
            let (c, l) = (md(c), md(l));
            let cap = |x: i64| if x.abs() > 2_000_000_000 { -5 } else { x };
            let line = format!(
                "{{\"e\":\"cnt\",\"h\":{},\"sel\":{},\"m\":{},\"r\":{},\"len\":{}}}",
                self.hs[i].no,
                jarr(sel),
                m,
                cap(c),
                cap(l)
            );
            self.out.line(&line);
        }
    }
    /// nodes that nobody holds: later ones get ids beyond 2^16 (2^20)
    pub fn do_garbage(&mut self) {
        let l = self.hdr.iter().position(|&h| h == 9999).unwrap_or(self.hdr.len());
        if l == 0 && self.sys.wrapper() && self.sys.kind != "zw" {
            return;
        }
        let hdr = self.hdr[..l].to_vec();
        let k: Vec<usize> = self.ord[..l].iter().map(|o| o.k).collect();
        let n = *self.rng.pick(&[70_000usize, 70_000, 140_000, 300_000, 500_000]);
        let mut r = Rng(self.rng.next());
        if self.call(tagv(&["C20"]), "garbage", |s| s.garbage(&hdr, &k, n, &mut r)).is_some() {
            let line = format!("{{\"e\":\"garb\",\"st\":{}}}", self.st());
            self.out.line(&line);
        }
    }
    pub fn do_lab(&mut self, i: usize) {
        let slots = std::mem::take(&mut self.hs);
        let r = self.call(tagv(&["C14", "C16"]), "labels", |_| {
            let y = slots[i].h.y();
            (y.labels(), y.is_cut(), y.vars().to_vec())
        });
        self.hs = slots;
        if let Some((v, cut, vars)) = r {
            let vars: Vec<String> = vars.iter().map(|(n, k)| format!("{{\"nm\":{},\"k\":{}}}", jstr(n), k)).collect();
            let line = format!(
                "{{\"e\":\"lab\",\"h\":{},\"r\":{},\"rev\":{},\"cut\":{},\"vars\":[{}]}}",
                self.hs[i].no,
                jarr(&v),
                self.hs[i].rev as i32,
                cut as i32,
                vars.join(",")
            );
            self.out.line(&line);
        }
    }
    pub fn do_lvl(&mut self, i: usize, v: i64) {
        let slots = std::mem::take(&mut self.hs);
        let r = self.call(tagv(&["C10"]), "extract_level", |_| slots[i].h.y().extract_level(v));
        self.hs = slots;
        if let Some(ms) = r {
            let rev = self.hs[i].rev;
            let items: Vec<Vec<i64>> = ms.iter().map(|m| self.map_vec(m, Some(rev))).collect();
            let line = format!(
                "{{\"e\":\"lvl\",\"h\":{},\"v\":{},\"items\":{},\"rev\":{}}}",
                self.hs[i].no,
                v,
                self.vecs_json(&items),
                rev as i32
            );
            self.out.line(&line);
        }
    }
    /// state weights per universe variable: eighths, or residues modulo m summing to 1
    fn weights(&mut self, m: i64) -> Vec<Vec<i64>> {
        let mut ar = self.ar[..self.nexp].to_vec();
        if let Some(h) = &self.hid {
            ar.extend(h.k.iter());
        }
        ar.iter()
            .map(|&k| {
                let total = if m == 0 { 8 } else { 1 };
                let mut w: Vec<i64> = if m == 0 {
                    let mut left = 8;
                    let mut v = vec![];
                    for j in 0..k {
                        let x = if j == k - 1 { left } else { self.rng.range(0, left) };
                        left -= x;
                        v.push(x);
                    }
                    v
                } else {
                    let mut v: Vec<i64> = (0..k).map(|_| self.rng.range(0, m - 1)).collect();
                    let s: i64 = v[1..].iter().sum();
                    v[0] = ((total - s) % m + m) % m;
                    v
                };
                if m == 0 {
                    self.rng.shuffle(&mut w);
                }
                w
            })
            .collect()
    }
    pub fn do_prob(&mut self, i: usize, sel: &[i64], m: i64, bm: bool) {
        let binary = self.sys.kind == "bss";
        let tags = if binary { tagv(&["C11"]) } else { tagv(&["C12"]) };
        let w = self.weights(m);
        let n = self.ar.len() as i32;
        let bs: Vec<bool> = sel.iter().map(|&x| x == 1).collect();
        let mut names = self.names[..self.nexp].to_vec();
        if let Some(h) = &self.hid {
            names.extend(h.names.iter().cloned());
        }
        // unrelated entries in the environment must not matter
        let extra = self.rng.chance(40);
        if m > 0 {
            P.with(|p| p.set(m));
        }
        let slots = std::mem::take(&mut self.hs);
        let h = &slots[i].h;
        let what = if bm { "bmeas" } else { "prob" };
        let r: Option<Vec<(String, Vec<i64>)>> = self.call(tags, what, |_| {
            let fx = |x: f64, e: i32| {
                let y = x * 8f64.powi(e);
                if y.fract() == 0.0 && y.abs() < 1e9 {
                    y as i64
                } else {
                    BAD
                }
            };
            match (m, h) {
                (0, Hd::B(nd)) => {
                    let mut env: HashMap<String, f64> =
                        names.iter().enumerate().map(|(v, s)| (s.clone(), w[v][1] as f64 / 8.0)).collect();
                    if extra {
                        env.insert("zz".into(), 0.25);
                    }
                    if bm {
                        nd.bmeas(&env, &bs).into_iter().map(|(k, x)| (k, vec![fx(x, n - 1)])).collect()
                    } else {
                        vec![("".into(), vec![fx(nd.prob(&env, &bs), n)])]
                    }
                }
                (_, Hd::B(nd)) => {
                    let env: HashMap<String, Zp> =
                        names.iter().enumerate().map(|(v, s)| (s.clone(), Zp(w[v][1]))).collect();
                    if bm {
                        nd.bmeas(&env, &bs).into_iter().map(|(k, x)| (k, vec![x.0])).collect()
                    } else {
                        vec![("".into(), vec![nd.prob(&env, &bs).0])]
                    }
                }
                (0, Hd::M(nd)) => {
                    let mut nd = nd.clone();
                    let mut env: HashMap<String, Vec<f64>> = names
                        .iter()
                        .enumerate()
                        .map(|(v, s)| (s.clone(), w[v].iter().map(|&x| x as f64 / 8.0).collect()))
                        .collect();
                    if extra {
                        env.insert("zz".into(), vec![0.25, 0.75]);
                    }
                    if bm {
                        nd.bmeas(&env, sel)
                            .into_iter()
                            .map(|(k, x)| (k, x.into_iter().map(|y| fx(y, n - 1)).collect()))
                            .collect()
                    } else {
                        vec![("".into(), vec![fx(nd.prob(&env, sel), n)])]
                    }
                }
                (_, Hd::M(nd)) => {
                    let mut nd = nd.clone();
                    let env: HashMap<String, Vec<Zp>> = names
                        .iter()
                        .enumerate()
                        .map(|(v, s)| (s.clone(), w[v].iter().map(|&x| Zp(x)).collect()))
                        .collect();
                    if bm {
                        nd.bmeas(&env, sel)
                            .into_iter()
                            .map(|(k, x)| (k, x.into_iter().map(|y| y.0).collect()))
                            .collect()
                    } else {
                        vec![("".into(), vec![nd.prob(&env, sel).0])]
                    }
                }
                _ => unreachable!(),
            }
        });
        self.hs = slots;
        if let Some(r) = r {
            let ne = self.nexp;
            let wj = jarr(&w[..ne].iter().map(|x| jarr(x)).collect::<Vec<_>>());
            let hwj = jarr(&w[ne..].iter().map(|x| jarr(x)).collect::<Vec<_>>());
            let no = self.hs[i].no;
            let line = if bm {
                let mut v: Vec<String> = r
                    .iter()
                    .map(|(k, x)| {
                        let u = match self.lookup(k) {
                            (_, j) if j > 0 => -(j as i64),
                            (u, _) => u as i64,
                        };
                        format!("[{},{}]", u, jarr(x))
                    })
                    .collect();
                v.sort();
                format!(
                    "{{\"e\":\"bm\",\"h\":{},\"w\":{},\"hw\":{},\"sel\":{},\"m\":{},\"r\":[{}]}}",
                    no,
                    wj,
                    hwj,
                    jarr(sel),
                    m,
                    v.join(",")
                )
            } else {
                format!(
                    "{{\"e\":\"prob\",\"h\":{},\"w\":{},\"hw\":{},\"sel\":{},\"m\":{},\"r\":{}}}",
                    no,
                    wj,
                    hwj,
                    jarr(sel),
                    m,
                    r[0].1[0]
                )
            };
            self.out.line(&line);
        }
    }
    /// Probability or importance with interval-valued probabilities: the result must enclose the
    /// true value for every probability vector inside the boxes, and be exact on points.
    pub fn do_interval(&mut self, i: usize, sel: &[i64], bm: bool) {
        let binary = self.sys.kind == "bss";
        let tags = if binary { tagv(&["C11"]) } else { tagv(&["C12"]) };
        let mut w = self.weights(0);
        let n = w.len();
        let wide = *self.rng.pick(&[0i64, 30, 60, 100]);
        // the same box for every state of every variable with that many states: different
        // functions get the same interval
        let same = self.rng.chance(50);
        if same {
            for v in w.iter_mut() {
                let k = v.len() as i64;
                *v = (0..k).map(|j| 8 / k + if j < 8 % k { 1 } else { 0 }).collect();
            }
        }
        let bx: Vec<Vec<(i64, i64)>> = w
            .iter()
            .map(|v| {
                v.iter()
                    .map(|&x| {
                        if same {
                            let k = v.len() as i64;
                            ((8 / k - 2).max(0), if k == 1 { 8 } else { ((8 + k - 1) / k + 2).min(8) })
                        } else if (self.rng.below(100) as i64) < wide {
                            ((x - self.rng.range(0, 3)).max(0), (x + self.rng.range(0, 3)).min(8))
                        } else {
                            (x, x)
                        }
                    })
                    .collect::<Vec<_>>()
            })
            .collect();
        // probability vectors inside the boxes
        let mut pts = vec![w.clone()];
        for _ in 0..4 {
            let mut p = w.clone();
            for v in 0..n {
                if p[v].len() < 2 {
                    continue;
                }
                if binary {
                    let x = match self.rng.below(3) {
                        0 => bx[v][1].0,
                        1 => bx[v][1].1,
                        _ => p[v][1],
                    };
                    p[v] = vec![8 - x, x];
                } else {
                    for _ in 0..2 {
                        let (s, t) = (self.rng.below(p[v].len()), self.rng.below(p[v].len()));
                        let d = (p[v][s] - bx[v][s].0).min(bx[v][t].1 - p[v][t]);
                        if s != t && d > 0 {
                            p[v][s] -= d;
                            p[v][t] += d;
                        }
                    }
                }
            }
            if !pts.contains(&p) {
                pts.push(p);
            }
        }
        let names = self.names[..self.nexp].to_vec();
        let iv = |b: (i64, i64)| Iv(b.0 as f64 / 8.0, b.1 as f64 / 8.0);
        let bs: Vec<bool> = sel.iter().map(|&x| x == 1).collect();
        let slots = std::mem::take(&mut self.hs);
        let h = &slots[i].h;
        let what = if bm { "bmeas" } else { "prob" };
        let e = if bm { n as i32 - 1 } else { n as i32 };
        let r: Option<Vec<(String, Vec<Iv>)>> = self.call(tags, what, |_| match h {
            Hd::B(nd) => {
                let env: HashMap<String, Iv> =
                    names.iter().enumerate().map(|(v, s)| (s.clone(), iv(bx[v][1]))).collect();
                if bm {
                    nd.bmeas(&env, &bs).into_iter().map(|(k, x)| (k, vec![x])).collect()
                } else {
                    vec![("".into(), vec![nd.prob(&env, &bs)])]
                }
            }
            Hd::M(nd) => {
                let mut nd = nd.clone();
                let env: HashMap<String, Vec<Iv>> = names
                    .iter()
                    .enumerate()
                    .map(|(v, s)| (s.clone(), bx[v].iter().map(|&b| iv(b)).collect()))
                    .collect();
                if bm {
                    nd.bmeas(&env, sel).into_iter().collect()
                } else {
                    vec![("".into(), vec![nd.prob(&env, sel)])]
                }
            }
            _ => unreachable!(),
        });
        self.hs = slots;
        let fx = |x: f64| {
            let y = x * 8f64.powi(e);
            if y.fract() == 0.0 && y.abs() < 1e9 {
                y as i64
            } else {
                BAD
            }
        };
        if let Some(r) = r {
            let r: Vec<(String, Vec<(i64, i64)>)> =
                r.into_iter().map(|(k, v)| (k, v.into_iter().map(|x| (fx(x.0), fx(x.1))).collect())).collect();
            // conservative bounds beyond TLC's integers say nothing worth checking
            if r.iter().any(|(_, v)| v.iter().any(|&(a, b)| a == BAD || b == BAD)) {
                return;
            }
            let mut v: Vec<String> = r
                .iter()
                .map(|(k, x)| {
                    let u = if bm { self.lookup(k).0 as i64 } else { 0 };
                    format!("[{},{}]", u, jarr(&x.iter().map(|b| format!("[{},{}]", b.0, b.1)).collect::<Vec<_>>()))
                })
                .collect();
            v.sort();
            let pj = jarr(&pts.iter().map(|p| jarr(&p.iter().map(|x| jarr(x)).collect::<Vec<_>>())).collect::<Vec<_>>());
            let exact = if binary { bx.iter().all(|b| b[1].0 == b[1].1) } else { bx.iter().flatten().all(|b| b.0 == b.1) };
            let line = format!(
                "{{\"e\":\"iv\",\"h\":{},\"bm\":{},\"pt\":{},\"ws\":{},\"sel\":{},\"r\":[{}]}}",
                self.hs[i].no,
                bm as u8,
                exact as u8,
                pj,
                jarr(sel),
                v.join(",")
            );
            self.out.line(&line);
        }
    }
    pub fn do_dot(&mut self, i: usize) {
        let slots = std::mem::take(&mut self.hs);
        let r = self.call(tagv(&["C19"]), "dot", |s| s.dot(&slots[i].h));
        self.hs = slots;
        let txt = match r {
            Some(t) => t,
            None => return,
        };
        let f = self.hs[i].f;
        let sc = self.sys.scale;
        let mut ns = vec![];
        let mut es = vec![];
        let mut junk = 0;
        let mut ids: HashMap<String, usize> = HashMap::new();
        for ln in txt.lines() {
            let q: Vec<&str> = ln.split('"').collect();
            // "a" -> "b" [label="i"];   or   "a" [shape=.., label="l"];
            let lab = |s: &str| -> Option<String> {
                let p = s.find("label")?;
                let r: Vec<&str> = s[p..].split('"').collect();
                r.get(1).map(|x| x.to_string())
            };
            let mut num = |s: &str| -> Option<usize> {
                let k = ids.len();
                Some(*ids.entry(s.to_string()).or_insert(k))
            };
            let t = ln.trim();
            if t.is_empty() || t.starts_with("digraph") || t == "}" {
                continue;
            }
            if ln.contains("->") && q.len() >= 6 {
                match (num(q[1]), num(q[3]), lab(ln).and_then(|x| x.parse::<i64>().ok())) {
                    (Some(a), Some(b), Some(l)) => es.push(format!("[{},{},{}]", a, b, l)),
                    _ => junk += 1,
                }
            } else if q.len() >= 4 {
                let a = num(q[1]);
                let l = lab(ln);
                match (a, l) {
                    (Some(a), Some(l)) => {
                        let term = ln.contains("square");
                        if term {
                            let v = match (f, l.as_str()) {
                                (_, "Undet") => UNDET,
                                (F::B, _) | (F::Z, _) => match l.as_str() {
                                    "0" | "F" => 0,
                                    "1" | "T" => 1,
                                    "?" | "*" => UNDET,
                                    _ => BAD,
                                },
                                _ => l
                                    .parse::<i64>()
                                    .map(|x| if x % sc == 0 { x / sc } else { BAD })
                                    .unwrap_or(BAD),
                            };
                            ns.push(format!("[{},{},1]", a, v));
                        } else {
                            ns.push(format!("[{},{},0]", a, jstr(&l)));
                        }
                    }
                    _ => junk += 1,
                }
            } else {
                junk += 1;
            }
        }
        let line = format!(
            "{{\"e\":\"dot\",\"h\":{},\"n\":[{}],\"ed\":[{}],\"junk\":{}}}",
            self.hs[i].no,
            ns.join(","),
            es.join(","),
            junk
        );
        self.out.line(&line);
    }
    /// the nodes below some roots; None if there are too many
    fn below(&self, f: F, mut stack: Vec<usize>, max: usize) -> Option<Vec<String>> {
        let mut seen = HashSet::new();
        let mut ns = vec![];
        while let Some(x) = stack.pop() {
            if !seen.insert(x) {
                continue;
            }
            if seen.len() > max {
                return None;
            }
            match self.sys.raw(f, x) {
                Raw::N(l, c) => {
                    ns.push(format!("[{},{},{}]", x, l, jarr(&c)));
                    stack.extend(c);
                }
                // an edge to a node that does not exist
                Raw::Bad => ns.push(format!("[{},-2,[]]", x)),
                _ => ns.push(format!("[{},-1,[]]", x)),
            }
        }
        Some(ns)
    }
    /// the structure below all handles of a forest together
    pub fn do_shared(&mut self, f: F) {
        let roots: Vec<usize> = self.hs.iter().filter(|s| s.f == f).map(|s| s.h.id()).collect();
        if roots.is_empty() || (self.sum() && roots.len() > 12) {
            return;
        }
        if let Some(ns) = self.below(f, roots, 300) {
            self.out.line(&format!("{{\"e\":\"shared\",\"f\":\"{}\",\"n\":[{}]}}", f.s(), ns.join(",")));
        }
    }
    pub fn do_snap(&mut self, i: usize) {
        let f = self.hs[i].f;
        let ns = match self.below(f, vec![self.hs[i].h.id()], 300) {
            Some(ns) => ns,
            None => return,
        };
        let slots = std::mem::take(&mut self.hs);
        let r = self.call(tagv(&["C20"]), "size", |s| (s.size(&slots[i].h), s.flags(&slots[i].h)));
        self.hs = slots;
        if let Some((sz, fl)) = r {
            let szj = sz.map(|(a, b, c)| format!("[{},{},{}]", a, b, c)).unwrap_or("[]".into());
            let flj = fl.map(|v| jarr(&v)).unwrap_or("[]".into());
            let line = format!(
                "{{\"e\":\"snap\",\"h\":{},\"n\":[{}],\"sz\":{},\"fl\":{}}}",
                self.hs[i].no,
                ns.join(","),
                szj,
                flj
            );
            self.out.line(&line);
        }
    }

    // -------------------------------------------------------- reverse Polish
    pub fn do_rpn(&mut self, toks: &[Tok]) -> Option<usize> {
        let text: Vec<String> = toks.iter().map(|t| t.text.clone()).collect();
        // any white space separates tokens
        let s = if self.rng.chance(30) {
            let mut s = String::new();
            for x in &text {
                s.push_str(*self.rng.pick(&["", "", " ", "\n", "\t"]));
                s.push_str(*self.rng.pick(&[" ", "  \t ", "\n", "\r\n", "\t", "\n\n "]));
                s.push_str(x);
            }
            s.push_str(*self.rng.pick(&["", " ", "\n"]));
            s
        } else {
            text.join(" ")
        };
        let vars: HashMap<String, usize> =
            self.names[..self.nexp].iter().cloned().zip(self.ar.iter().cloned()).collect();
        let tags = if self.gcd { tagv(&["C15", "C03"]) } else { tagv(&["C15"]) };
        let r = self.call(tags, "rpn", |sy| sy.rpn(&s, &vars))?;
        // variables the expression declared
        for (nm, k) in self.sys.varorder() {
            if !self.ord.iter().any(|o| o.nm == nm) {
                let (u, hid) = self.lookup(&nm);
                self.ord.push(OrdE { nm: nm.clone(), k, u, hid });
                self.hdr.push(9999);
            }
        }
        let tj: Vec<String> = toks.iter().map(|t| t.json.clone()).collect();
        let no = self.nextno();
        match r {
            Ok(h) => {
                let (o, d) = self.obs(&h);
                let line = format!(
                    "{{\"e\":\"rpn\",\"toks\":[{}],\"ok\":1,\"vo\":{},\"h\":{},\"o\":{},\"st\":{}}}",
                    tj.join(","),
                    self.vo(),
                    no,
                    o,
                    self.st()
                );
                self.out.line(&line);
                Some(self.push(h, d, false, vec![], false))
            }
            Err(_) => {
                let line = format!(
                    "{{\"e\":\"rpn\",\"toks\":[{}],\"ok\":0,\"vo\":{},\"h\":{},\"o\":{{\"f\":\"\"}},\"st\":{}}}",
                    tj.join(","),
                    self.vo(),
                    no,
                    self.st()
                );
                self.out.line(&line);
                self.next += 1;
                None
            }
        }
    }

    // -------------------------------------------------------- builders
    /// Build the function with the given table (one value per point) bottom-up with create_node.
    pub fn build(&mut self, f: F, table: &[i64]) -> Option<usize> {
        if self.sum() {
            return self.build_sum(f, table);
        }
        let start = self.hs.len();
        let mut memo: HashMap<(usize, Vec<i64>), usize> = HashMap::new();
        let r = self.build_rec(f, self.ord.len(), table, &mut memo)?;
        // keep only the result
        let keep = self.hs[r].no;
        let mut idx: Vec<usize> = (start..self.hs.len()).filter(|&i| self.hs[i].no != keep).collect();
        self.do_drop(&mut idx);
        if self.dead {
            return None;
        }
        self.hs.iter().position(|s| s.no == keep)
    }
    /// Sum geometry: one node per level and partial sum, intermediate handles unlogged.
    fn build_sum(&mut self, f: F, t: &[i64]) -> Option<usize> {
        let (ord, hdr, str_) = (self.ord.clone(), self.hdr.clone(), self.str_.clone());
        let h = self.hid.as_ref().unwrap();
        let w = h.w.clone();
        let v = *str_.last().unwrap();
        // the points (explicit digits fixed so far, class so far) reachable per level, top down
        let next = |me: &Self, i: usize, o: &OrdE, s: usize| -> usize {
            if o.u > 0 {
                i + s * str_[o.u - 1]
            } else if o.hid > 0 {
                let q = i / v;
                let c = me.hid.as_ref().unwrap().cls(q + w[o.hid - 1] * s);
                i % v + c * v
            } else {
                i
            }
        };
        let mut need: Vec<Vec<usize>> = vec![vec![]; ord.len() + 1];
        need[ord.len()] = vec![0];
        for l in (0..ord.len()).rev() {
            let o = &ord[l];
            let mut set: HashSet<usize> = HashSet::new();
            for &i in &need[l + 1] {
                for s in 0..o.k {
                    set.insert(next(self, i, o, s));
                    if o.u == 0 && o.hid == 0 {
                        break;
                    }
                }
            }
            let mut x: Vec<usize> = set.into_iter().collect();
            x.sort();
            need[l] = x;
        }
        let mut cur: HashMap<usize, Hd> = HashMap::new();
        let tg = tagv(&["C20"]);
        for &i in &need[0] {
            let x = t[i];
            let hd = self.call(tg.clone(), "constant", |s| s.constant(f, x))?;
            cur.insert(i, hd);
        }
        for l in 0..ord.len() {
            let o = &ord[l];
            let mut nx: HashMap<usize, Hd> = HashMap::new();
            for &i in &need[l + 1] {
                if o.u == 0 && o.hid == 0 {
                    nx.insert(i, cur[&i].dup());
                    continue;
                }
                let ids: Vec<usize> = (0..o.k).map(|s| next(self, i, o, s)).collect();
                let hd = self.call(tg.clone(), "create_node", |sy| {
                    let r: Vec<&Hd> = ids.iter().map(|j| &cur[j]).collect();
                    sy.create(hdr[l], &r)
                })?;
                nx.insert(i, hd);
            }
            cur = nx;
        }
        let hd = cur.remove(&0).unwrap();
        drop(cur);
        self.log_mk(f, t, &["C20"], hd)
    }
    /// a function built without keeping or logging anything but its root
    fn quiet(&mut self, f: F, l: usize, i: usize, t: &[i64]) -> Option<Hd> {
        let tg = tagv(&["C03", "C04"]);
        if l == 0 {
            return self.call(tg, "constant", |s| s.constant(f, t[i]));
        }
        let (u, k, h) = (self.ord[l - 1].u, self.ord[l - 1].k, self.hdr[l - 1]);
        if u == 0 {
            return self.quiet(f, l - 1, i, t);
        }
        let mut ch = vec![];
        for s in 0..k {
            let j = i + s * self.str_[u - 1];
            ch.push(self.quiet(f, l - 1, j, t)?);
        }
        self.call(tg, "create_node", |sy| {
            let r: Vec<&Hd> = ch.iter().collect();
            sy.create(h, &r)
        })
    }
    /// Garbage of forest f (diagrams built and dropped at once) until the automatic collector
    /// has run, unlogged: one event for all of it.
    pub fn do_flood(&mut self, f: F, cap: usize) {
        let gr: Vec<F> = if self.sys.kind == "mss" && f != F::Y { vec![F::B, F::V] } else { vec![f] };
        let live = |s: &Sys| -> usize { s.st().iter().filter(|x| gr.contains(&x.0)).map(|x| x.1).sum() };
        let (mut hi, mut falls, mut last) = (0usize, 0usize, live(&self.sys));
        let limit = 140_000;
        // the slots the first collection frees are all taken again by the second
        let want = if self.rng.chance(75) { 2 } else { 1 };
        if f == F::Y {
            for _ in 0..2 {
                // families of some size that are held once
                let l: Vec<usize> = self
                    .of(F::Y)
                    .into_iter()
                    .filter(|&i| {
                        let id = self.hs[i].h.id();
                        matches!(self.sys.raw(F::Y, id), Raw::N(..)) && self.hs.iter().filter(|x| x.f == F::Y && x.h.id() == id).count() == 1
                    })
                    .collect();
                if !l.is_empty() && !self.dead {
                    let i = *self.rng.pick(&l);
                    self.idem(i, false);
                }
            }
            if self.dead {
                return;
            }
        }
        let dec = self.declared();
        // the handle returned by the call that collected
        let mut res: Option<(F, Vec<i64>, Hd)> = None;
        let mut hit = None;
        for r in 0..cap {
            res = None;
            match (self.sys.kind.as_str(), f) {
                ("mss", F::Y) => {
                    // strictly increasing: every vector is the minimal one of its own label
                    let w: Vec<i64> = (0..self.ar.len()).map(|_| 1 + self.rng.below(1 << 24) as i64).collect();
                    let mut t: Vec<i64> = self.dg.iter().map(|d| d.iter().zip(&w).map(|(&s, x)| s as i64 * x).sum()).collect();
                    self.fit(F::V, &mut t);
                    let h = match self.quiet(F::V, self.ord.len(), 0, &t) {
                        Some(h) => h,
                        None => return,
                    };
                    let way = if r % 7 == 0 { "cut" } else { "path" };
                    match self.call(tagv(&["C03", "C04"]), "minsol", |s| s.minsol(way, &h)) {
                        None => return,
                        Some(Some(y)) if way == "path" => {
                            let und: Vec<usize> = (0..self.ar.len()).filter(|v| !dec.contains(&(v + 1))).collect();
                            let d: Vec<i64> = (0..self.n)
                                .map(|i| if und.iter().any(|&v| self.dg[i][v] > 0) { UNDET } else { t[i] })
                                .collect();
                            res = Some((F::Y, d, y));
                        }
                        _ => (),
                    }
                }
                ("bss", F::Z) => {
                    let t = self.monotone_table(F::B, false);
                    let h = match self.quiet(F::B, self.ord.len(), 0, &t) {
                        Some(h) => h,
                        None => return,
                    };
                    if self.call(tagv(&["C03", "C04"]), "minsol", |s| s.minsol("path", &h)).is_none() {
                        return;
                    }
                }
                ("zw", _) => {
                    let m = 1 + self.rng.below(8);
                    let sets: Vec<Vec<String>> = (0..m)
                        .map(|_| {
                            let mut v = vec![];
                            for &u in &dec {
                                if self.rng.chance(50) {
                                    v.push(self.names[u - 1].clone());
                                }
                            }
                            v
                        })
                        .collect();
                    match self.call(tagv(&["C03", "C04"]), "from_sets", |s| s.from_sets(&sets)) {
                        None => return,
                        Some(z) => {
                            let d: Vec<i64> = (0..self.n)
                                .map(|i| {
                                    sets.iter().any(|x| {
                                        (0..self.ar.len()).all(|v| (self.dg[i][v] > 0) == x.contains(&self.names[v]))
                                    }) as i64
                                })
                                .collect();
                            res = Some((F::Z, d, z));
                        }
                    }
                }
                _ => {
                    let mut t: Vec<i64> = (0..self.n)
                        .map(|_| if f == F::B { self.rng.below(2) as i64 } else { self.rng.range(-9, 9) })
                        .collect();
                    self.fit(f, &mut t);
                    match self.quiet(f, self.ord.len(), 0, &t) {
                        None => return,
                        Some(h) => res = Some((f, t, h)),
                    }
                }
            }
            let now = live(&self.sys);
            hi = hi.max(now);
            if now < last {
                falls += 1;
                hit = res.take();
            }
            last = now;
            if falls >= 2 || (falls >= want && hi > 20_000) || hi > limit {
                break;
            }
        }
        self.gcd = true;
        let fj: Vec<String> = gr.iter().map(|f| format!("\"{}\"", f.s())).collect();
        let line = format!(
            "{{\"e\":\"flood\",\"f\":[{}],\"hi\":{},\"falls\":{},\"x\":{},\"st\":{}}}",
            fj.join(","),
            hi,
            falls,
            4 * self.n + 20,
            self.st()
        );
        self.out.line(&line);
        if let Some((f, t, h)) = hit {
            if let Some(i) = self.log_mk(f, &t, &["C03"], h) {
                if self.dead {
                    return;
                }
                let keep = self.rng.chance(50) && f != F::Y;
                if !keep {
                    self.do_drop(&mut vec![i]);
                }
            }
        }
        if !self.dead {
            self.do_chk(true, &[]);
        }
    }
    pub fn log_mk(&mut self, f: F, t: &[i64], tg: &[&str], h: Hd) -> Option<usize> {
        let (o, d) = self.obs(&h);
        let mut tags = tagv(tg);
        if self.gcd {
            tags.push("C03".into());
        }
        let line = format!(
            "{{\"e\":\"mk\",\"f\":\"{}\",\"tab\":{},\"tg\":{},\"h\":{},\"o\":{},\"st\":{}}}",
            f.s(),
            jarr(t),
            jstrs(&tags),
            self.nextno(),
            o,
            self.st()
        );
        self.out.line(&line);
        Some(self.push(h, d, false, vec![], false))
    }
    fn cof(&self, t: &[i64], u: usize, s: usize) -> Vec<i64> {
        (0..self.n)
            .map(|i| t[i + s * self.str_[u - 1] - self.dg[i][u - 1] * self.str_[u - 1]])
            .collect()
    }
    fn build_rec(&mut self, f: F, lv: usize, t: &[i64], memo: &mut HashMap<(usize, Vec<i64>), usize>) -> Option<usize> {
        let key = (lv, t.to_vec());
        if let Some(&x) = memo.get(&key) {
            return Some(x);
        }
        let r = if lv == 0 {
            self.do_const(f, t[0])?
        } else {
            let u = self.ord[lv - 1].u;
            if u == 0 {
                self.build_rec(f, lv - 1, t, memo)?
            } else {
                let k = self.ord[lv - 1].k;
                let cs: Vec<Vec<i64>> = (0..k).map(|s| self.cof(t, u, s)).collect();
                let red = if f.zs() {
                    cs[1..].iter().all(|c| c.iter().all(|&x| x == f.null()))
                } else {
                    cs[1..].iter().all(|c| *c == cs[0])
                };
                if red && self.rng.chance(85) {
                    self.build_rec(f, lv - 1, &cs[0], memo)?
                } else {
                    let mut a = vec![];
                    for c in &cs {
                        a.push(self.build_rec(f, lv - 1, c, memo)?);
                    }
                    let r = self.do_create(lv - 1, &a)?;
                    if self.dead {
                        return None;
                    }
                    r
                }
            }
        };
        memo.insert(key, r);
        Some(r)
    }
    pub fn can_build(&self) -> bool {
        (self.full || self.sum()) && self.sys.kind != "zw" && !self.hdr.contains(&9999)
    }
    pub fn declared(&self) -> Vec<usize> {
        self.ord.iter().filter(|o| o.u > 0).map(|o| o.u).collect()
    }
    /// zero out dependence on undeclared variables (null for zero-suppressed forests)
    fn fit(&self, f: F, t: &mut [i64]) {
        let decl: HashSet<usize> = self.declared().into_iter().collect();
        for u in 1..=self.nexp {
            if !decl.contains(&u) {
                for i in 0..self.n {
                    if self.dg[i][u - 1] > 0 {
                        t[i] = if f.zs() { f.null() } else { t[i - self.dg[i][u - 1] * self.str_[u - 1]] };
                    }
                }
            }
        }
    }
    pub fn random_table(&mut self, f: F) -> Vec<i64> {
        let undet = self.cfg.get("undet");
        let dens = *self.rng.pick(&[10usize, 30, 50, 70, 90]);
        let lim = self.cfg.or("lim", 4);
        let mut t: Vec<i64> = (0..self.n)
            .map(|_| match f {
                F::B => {
                    if undet > 0 && self.rng.chance(undet as usize) {
                        UNDET
                    } else {
                        self.rng.chance(dens) as i64
                    }
                }
                F::Z => self.rng.chance(dens) as i64,
                F::V => {
                    if undet > 0 && self.rng.chance(undet as usize) {
                        UNDET
                    } else {
                        self.rng.range(-lim, lim)
                    }
                }
                F::Y => {
                    if self.rng.chance(dens) {
                        self.rng.range(-1, 2)
                    } else {
                        UNDET
                    }
                }
            })
            .collect();
        // forget some variables so that diagrams skip levels
        if self.rng.chance(60) {
            for u in 0..self.ar.len() {
                if self.rng.chance(30) {
                    for i in 0..self.n {
                        let z = i - self.dg[i][u] * self.str_[u];
                        t[i] = if f.zs() && self.dg[i][u] > 0 { f.null() } else { t[z] };
                    }
                }
            }
        }
        self.fit(f, &mut t);
        t
    }
    /// a monotone table, sometimes spoilt at one point
    pub fn monotone_table(&mut self, f: F, spoil: bool) -> Vec<i64> {
        let hi = if f == F::B { 1 } else { self.rng.range(1, 4) };
        let lo = if f == F::B { 0 } else { self.rng.range(-1, 0) };
        let dens = *self.rng.pick(&[3usize, 8, 15, 30, 50]);
        let mut t: Vec<i64> = (0..self.n)
            .map(|_| if self.rng.chance(dens) { self.rng.range(lo, hi) } else { lo })
            .collect();
        if self.n > 64 && self.rng.chance(60) {
            // a few steps anywhere
            t = vec![lo; self.n];
            for _ in 0..1 + self.rng.below(4) {
                let i = if self.rng.chance(50) { self.rng.below(self.n) } else { self.n - 1 - self.rng.below(self.n / 8) };
                t[i] = self.rng.range(lo, hi);
            }
        }
        for i in 0..self.n {
            for v in 0..self.ar.len() {
                if self.dg[i][v] > 0 {
                    t[i] = t[i].max(t[i - self.str_[v]]);
                }
            }
        }
        self.fit(f, &mut t);
        if spoil {
            let i = self.rng.below(self.n);
            t[i] = if f == F::B { 1 - t[i] } else { t[i] + self.rng.range(-2, 2) };
            self.fit(f, &mut t);
        }
        t
    }

    // -------------------------------------------------------- random steps
    pub fn of(&self, f: F) -> Vec<usize> {
        (0..self.hs.len()).filter(|&i| self.hs[i].f == f).collect()
    }
    fn maxabs(&self, i: usize) -> i64 {
        self.hs[i].d.iter().filter(|&&x| x != UNDET).map(|x| x.abs()).max().unwrap_or(0)
    }
    fn determined(&self, i: usize) -> bool {
        !self.hs[i].d.contains(&UNDET)
    }
    /// choose an operator and operands; None if nothing fits
    pub fn choose_op(&mut self) -> Option<(String, Vec<usize>, i64)> {
        let k = self.sys.kind.clone();
        let b = self.of(F::B);
        let v = self.of(F::V);
        let z = self.of(F::Z);
        let y = self.of(F::Y);
        let any: Vec<usize> = b.iter().chain(v.iter()).cloned().collect();
        let mut ops: Vec<&str> = vec![];
        let bin_b = ["and", "or", "xor", "imp", "nand", "nor", "xnor"];
        match k.as_str() {
            "bdd" => {
                ops.extend(bin_b);
                ops.extend(["not", "ite", "ite", "and", "or", "xor"]);
            }
            "mdd" => {
                ops.extend(bin_b);
                ops.extend(["not", "ite", "ite", "and", "or", "replace"]);
            }
            "bss" => {
                ops.extend(["and", "or", "xor", "not", "ite", "andn", "orn", "kofn", "dual"]);
                if !z.is_empty() {
                    ops.extend(["union", "intersect", "setdiff", "product", "divide"]);
                }
            }
            "zdd" | "zw" => ops.extend(["union", "intersect", "setdiff", "product", "divide"]),
            "mtmdd" => ops.extend(["add", "sub", "mul", "div", "rem", "min", "max", "replace"]),
            "zmdd" => ops.extend(["yintersect", "ysetdiff"]),
            "mtmdd2" | "mss" => {
                ops.extend(["and", "or", "xor", "not", "ite", "ite", "ite"]);
                ops.extend(["add", "sub", "mul", "div", "min", "max"]);
                ops.extend(CMP);
                if k == "mtmdd2" {
                    ops.extend(["vif", "vif", "rem", "imp", "nand", "nor", "xnor", "replace"]);
                }
                if k == "mss" {
                    ops.extend(["andn", "orn", "minn", "maxn"]);
                    if !y.is_empty() {
                        for _ in 0..self.cfg.or("yop", 1) {
                            ops.extend(["yintersect", "ysetdiff"]);
                        }
                    }
                }
            }
            _ => {}
        }
        if self.sum() {
            ops.retain(|o| !matches!(*o, "product" | "divide"));
        }
        let op = *self.rng.pick(&ops);
        let mixed = self.cfg.get("mixed") > 0 && self.rng.chance(self.cfg.get("mixed") as usize);
        let pick = |r: &mut Rng, l: &[usize]| -> Option<usize> {
            if l.is_empty() {
                None
            } else if r.chance(50) {
                Some(l[l.len() - 1 - r.below(l.len().min(4))])
            } else {
                Some(*r.pick(l))
            }
        };
        let mv = k == "mtmdd2" || k == "mss";
        // mostly non-constant operands
        let interesting: Vec<bool> = self.hs.iter().map(|s| s.d.iter().any(|&x| x != s.d[0])).collect();
        let pick = |r: &mut Rng, l: &[usize]| -> Option<usize> {
            let mut x = pick(r, l)?;
            for _ in 0..3 {
                if interesting[x] || r.chance(25) {
                    break;
                }
                x = pick(r, l)?;
            }
            Some(x)
        };
        let r = &mut self.rng;
        let res: (String, Vec<usize>, i64) = match op {
            "union" | "intersect" | "setdiff" | "product" | "divide" => {
                let a = pick(r, &z)?;
                let c = pick(r, &z)?;
                if op == "divide" && self.hs[c].d.iter().all(|&x| x == 0) {
                    return None;
                }
                (op.into(), vec![a, c], 0)
            }
            "yintersect" | "ysetdiff" => {
                let a = pick(r, &y)?;
                let same: Vec<usize> =
                    y.iter().cloned().filter(|&i| self.hs[i].rev == self.hs[a].rev && self.hs[i].vs == self.hs[a].vs).collect();
                let c = pick(r, &same)?;
                (op.into(), vec![a, c], 0)
            }
            "not" | "dual" => {
                let l = if mixed && mv { &any } else { &b };
                let a = pick(r, l)?;
                if op == "dual" && !(self.full || self.hid.as_ref().map(|h| h.m > 0).unwrap_or(false)) {
                    return None;
                }
                (op.into(), vec![a], 0)
            }
            "ite" => {
                let c = if mixed && mv { pick(r, &any)? } else { pick(r, &b)? };
                let l = if mv && r.chance(60) { &v } else { &b };
                let x = pick(r, l)?;
                let w = pick(r, l)?;
                (op.into(), vec![c, x, w], 0)
            }
            "andn" | "orn" | "kofn" => {
                let m = r.below(if op == "kofn" { 7 } else { 5 });
                let mut a = vec![];
                for _ in 0..m {
                    a.push(pick(r, &b)?);
                }
                let p = r.below(m + 2) as i64;
                (op.into(), a, p)
            }
            "minn" | "maxn" => {
                let m = 1 + r.below(4);
                let mut a = vec![];
                for _ in 0..m {
                    a.push(pick(r, &v)?);
                }
                (op.into(), a, 0)
            }
            "vif" => (op.into(), vec![pick(r, &b)?, pick(r, &v)?], 0),
            "imp" | "nand" | "nor" | "xnor" => (op.into(), vec![pick(r, &b)?, pick(r, &b)?], 0),
            "replace" => {
                let l = if k == "mdd" || (k == "mtmdd2" && r.chance(40)) { &b } else { &v };
                (op.into(), vec![pick(r, l)?, pick(r, l)?], 0)
            }
            o if CMP.contains(&o) => {
                let l = if mixed {
                    &any
                } else if r.chance(30) && (o == "eq" || o == "neq") {
                    &b
                } else {
                    &v
                };
                let x = pick(r, l)?;
                let w = pick(r, l)?;
                if self.hs[x].f == F::B && self.hs[w].f == F::B && o != "eq" && o != "neq" {
                    return None;
                }
                (op.into(), vec![x, w], 0)
            }
            o if ARITH.contains(&o) => {
                let l = if mixed && mv && o != "rem" { &any } else { &v };
                let x = pick(r, l)?;
                let w = pick(r, l)?;
                let (p, q) = (self.maxabs(x), self.maxabs(w));
                if (o == "mul" && (p * q > 1_000_000 || self.sys.scale > 1))
                    || p > 10_000_000
                    || q > 10_000_000
                    || (self.sys.scale > 1 && o == "div")
                {
                    return None;
                }
                (op.into(), vec![x, w], 0)
            }
            _ => {
                let l = if mixed && mv { &any } else { &b };
                (op.into(), vec![pick(r, l)?, pick(r, l)?], 0)
            }
        };
        // engine and mdd operators with undetermined parts: the property speaks about
        // determined operands for some of them; the specification knows which
        Some(res)
    }
    pub fn random_op(&mut self) -> Option<usize> {
        for _ in 0..6 {
            if let Some((op, a, p)) = self.choose_op() {
                let r = self.do_op(&op, &a, p)?;
                if !self.dead && self.cfg.get("wc") > 0 && self.rng.chance(self.cfg.get("wc") as usize) {
                    self.do_wc(&op, &a, p, r);
                }
                return Some(r);
            }
        }
        None
    }
    pub fn small(&self, i: usize) -> bool {
        let f = self.hs[i].f;
        match self.sys.raw(f, self.hs[i].h.id()) {
            Raw::N(_, c) => {
                let mut inner: Vec<usize> = vec![];
                for x in c {
                    if let Raw::N(_, d) = self.sys.raw(f, x) {
                        if d.iter().any(|&y| matches!(self.sys.raw(f, y), Raw::N(..))) {
                            return false;
                        }
                        inner.push(x);
                    }
                }
                inner.sort();
                inner.dedup();
                inner.len() <= 1
            }
            _ => true,
        }
    }
    fn legal(&self, op: &str, a: &[usize]) -> bool {
        match op {
            "divide" => self.hs[a[1]].d.iter().any(|&x| x != 0),
            "yintersect" | "ysetdiff" => {
                self.hs[a[0]].rev == self.hs[a[1]].rev && self.hs[a[0]].vs == self.hs[a[1]].vs
            }
            o if ARITH.contains(&o) => {
                let (p, q) = (self.maxabs(a[0]), self.maxabs(a[1]));
                !((o == "mul" && (p * q > 1_000_000 || self.sys.scale > 1))
                    || p > 10_000_000
                    || q > 10_000_000
                    || (self.sys.scale > 1 && o == "div"))
            }
            _ => true,
        }
    }
    /// Repeat an earlier call whose operand ids are live again: with the same functions (the
    /// result must not have gone stale) or, preferably, with ids that now denote others.
    pub fn stale(&mut self) -> bool {
        let mut idx: HashMap<(F, usize), usize> = HashMap::new();
        for (i, s) in self.hs.iter().enumerate() {
            idx.insert((s.f, s.h.id()), i);
        }
        let hash: Vec<u64> = self.hs.iter().map(|s| dhash(&s.d)).collect();
        let mut same = vec![];
        let mut other = vec![];
        for (j, (_, a, _)) in self.log.iter().enumerate() {
            if a.iter().all(|x| idx.contains_key(&(x.0, x.1))) {
                if a.iter().all(|x| hash[idx[&(x.0, x.1)]] == x.2) {
                    same.push(j)
                } else {
                    other.push(j)
                }
            }
        }
        let l = if !other.is_empty() && self.rng.chance(80) { other } else { same };
        if l.is_empty() {
            return false;
        }
        let j = *self.rng.pick(&l);
        let (op, a, p) = self.log[j].clone();
        let a: Vec<usize> = a.iter().map(|x| idx[&(x.0, x.1)]).collect();
        if !self.legal(&op, &a) {
            return false;
        }
        self.do_op(&op, &a, p);
        true
    }
    /// compute, forget most of it, collect, compute again in the freed slots, repeat old calls
    /// An operation whose result is one of its operands, and the result dropped again.
    pub fn idem(&mut self, i: usize, gc: bool) {
        let f = self.hs[i].f;
        let ops: &[&str] = match f {
            F::B => &["and", "or", "ite"],
            F::V if self.sys.kind == "mss" => &["min", "max", "ite"],
            F::V => &["min", "max", "replace"],
            F::Z => &["union", "intersect", "setdiff", "product"],
            F::Y => &["yintersect", "ysetdiff"],
        };
        let op = self.rng.pick(ops).to_string();
        let same = |c: &Ctx, d: &[i64], f: F| (0..c.hs.len()).find(|&j| c.hs[j].f == f && c.hs[j].d == d);
        let no = self.hs[i].no;
        let x = match op.as_str() {
            "ite" => {
                let b = self.rng.below(2) as i64;
                let d = vec![b; self.n];
                let j = match same(self, &d, F::B) {
                    Some(j) => j,
                    None => return,
                };
                let o = *self.rng.pick(&self.of(f));
                let a = if b == 1 { [j, i, o] } else { [j, o, i] };
                self.do_op("ite", &a, 0)
            }
            "setdiff" | "ysetdiff" => {
                let d = vec![f.null(); self.n];
                let other = if f == F::Y { "yintersect" } else { "intersect" };
                match same(self, &d, f) {
                    Some(j) => self.do_op(&op, &[i, j], 0),
                    None => self.do_op(other, &[i, i], 0),
                }
            }
            "product" => {
                let one = (0..self.hs.len()).find(|&j| {
                    self.hs[j].f == f && (0..self.n).all(|p| (self.hs[j].d[p] == 1) == self.dg[p].iter().all(|&s| s == 0))
                });
                match one {
                    Some(j) if self.full => self.do_op(&op, &[i, j], 0),
                    _ => self.do_op("union", &[i, i], 0),
                }
            }
            _ => self.do_op(&op, &[i, i], 0),
        };
        let x = match x {
            Some(x) if !self.dead => x,
            _ => return,
        };
        if self.hs[x].no != no {
            self.do_drop(&mut vec![x]);
        }
        if gc && !self.dead {
            self.gc_any();
            if !self.dead {
                self.do_chk(true, &[]);
            }
        }
    }
    /// One expression that names variables for the first time while its intermediate results wait
    /// on the stack, with the automatic threshold within reach.
    pub fn fresh_rpn(&mut self) {
        let mss = self.sys.kind == "mss";
        let mut und: Vec<usize> = (0..self.nexp).filter(|&v| !self.ord.iter().any(|o| o.u == v + 1)).collect();
        self.rng.shuffle(&mut und);
        if und.is_empty() {
            return;
        }
        if und.len() > 3 && self.rng.chance(50) {
            let keep = 3 + self.rng.below(und.len() - 3);
            und.truncate(keep);
        }
        let vf = if mss { F::V } else { F::B };
        let (lo, hi) = (self.cfg.or("tlo", 3), self.cfg.or("thi", 26));
        for f in self.sys.forests() {
            if f == F::B {
                let t = self.rng.range(lo, hi) as usize;
                self.do_thr(f, t);
            }
        }
        let mut toks: Vec<Tok> = vec![];
        let mut st: Vec<F> = vec![];
        let mut saved: Vec<(String, F)> = vec![];
        let mut seen: Vec<usize> = (0..self.nexp).filter(|v| !und.contains(v)).collect();
        while !und.is_empty() || st.len() > 1 {
            let n = st.len();
            if !und.is_empty() && (n < 2 || (n < 5 && self.rng.chance(45))) {
                let v = if !seen.is_empty() && self.rng.chance(20) {
                    *self.rng.pick(&seen)
                } else {
                    let v = und.pop().unwrap();
                    seen.push(v);
                    v
                };
                toks.push(Tok::var(&self.names[v].clone(), v + 1, vf));
                st.push(vf);
                continue;
            }
            if self.rng.chance(12) {
                let nm = self.rng.pick(&["s", "t", "u"]).to_string();
                saved.retain(|x| x.0 != nm);
                saved.push((nm.clone(), st[n - 1]));
                toks.push(Tok::save(&nm));
                continue;
            }
            if n < 6 && !saved.is_empty() && self.rng.chance(12) {
                let (nm, f) = self.rng.pick(&saved).clone();
                toks.push(Tok::load(&nm));
                st.push(f);
                continue;
            }
            if !mss {
                if self.rng.chance(12) {
                    toks.push(Tok::op("~", "not"));
                    continue;
                }
                if n >= 3 && self.rng.chance(25) {
                    toks.push(Tok::op("?", "ite"));
                    st.truncate(n - 2);
                } else {
                    let (t, o) = *self.rng.pick(&[("&", "and"), ("|", "or"), ("^", "xor")]);
                    toks.push(Tok::op(t, o));
                    st.truncate(n - 1);
                }
                continue;
            }
            let top = st[n - 1];
            if n < 2 {
                break;
            }
            let s2 = st[n - 2];
            if n >= 3 && st[n - 3] == F::B && s2 == top && self.rng.chance(50) {
                toks.push(Tok::op("?", "ite"));
                st.truncate(n - 3);
                st.push(top);
                continue;
            }
            let (t, o, r) = match (s2, top) {
                (F::V, F::V) => *self.rng.pick(&[
                    ("+", "add", F::V),
                    ("-", "sub", F::V),
                    ("max", "max", F::V),
                    ("min", "min", F::V),
                    ("<", "lt", F::B),
                    (">=", "gte", F::B),
                    ("==", "eq", F::B),
                ]),
                (F::B, F::B) => *self.rng.pick(&[("&&", "and", F::B), ("||", "or", F::B), ("!=", "neq", F::B)]),
                // a value under a condition: make the kinds agree
                (_, F::B) => {
                    toks.push(Tok::con("3", F::V, 3));
                    toks.push(Tok::con("1", F::V, 1));
                    st.push(F::V);
                    ("?", "ite", F::V)
                }
                _ => {
                    toks.push(Tok::con("1", F::V, 1));
                    st.push(F::V);
                    (">", "gt", F::B)
                }
            };
            let n = st.len();
            toks.push(Tok::op(t, o));
            st.truncate(n - 2);
            st.push(r);
        }
        if toks.len() > 80 {
            return;
        }
        self.do_rpn(&toks);
    }
    pub fn churn(&mut self) {
        let m = 2 + self.rng.below(6);
        let first = self.next;
        for _ in 0..m {
            if self.dead {
                return;
            }
            if self.rng.chance(25) {
                if let Some(i) = (0..self.hs.len()).rev().find(|&i| self.hs[i].f != F::Y) {
                    if self.sys.kind != "zmdd" && !self.sum() {
                        self.do_child(i);
                        continue;
                    }
                }
            }
            self.random_op();
        }
        if self.dead {
            return;
        }
        let p = *self.rng.pick(&[40usize, 60, 80, 90]);
        let q = *self.rng.pick(&[0usize, 10, 40]);
        let mut idx: Vec<usize> = (0..self.hs.len())
            .filter(|&i| {
                let r = self.rng.below(100);
                if self.hs[i].no >= first {
                    r < p
                } else {
                    r < q
                }
            })
            .collect();
        self.do_drop(&mut idx);
        if self.dead || self.hs.is_empty() {
            return;
        }
        self.gc_any();
        for _ in 0..m {
            if self.dead {
                return;
            }
            self.random_op();
        }
        for _ in 0..3 {
            if self.dead || !self.stale() {
                break;
            }
        }
        if !self.dead {
            self.do_chk(true, &[]);
        }
    }
    pub fn gc_any(&mut self) {
        let fs: Vec<F> = match self.sys.kind.as_str() {
            "bss" => match self.rng.below(3) {
                0 => vec![F::B],
                1 => vec![F::Z],
                _ => vec![F::B, F::Z],
            },
            "mss" => {
                let hasy = !self.of(F::Y).is_empty();
                match self.rng.below(3) {
                    0 if hasy => vec![F::Y],
                    1 if hasy => vec![F::B, F::V, F::Y],
                    _ => vec![F::B, F::V],
                }
            }
            _ => self.sys.forests(),
        };
        self.do_gc(&fs);
    }
    pub fn random_sel(&mut self, f: F, d: &[i64]) -> Vec<i64> {
        if f == F::B || f == F::Z {
            return match self.rng.below(if f == F::Z { 8 } else { 10 }) {
                _ if f == F::Z && self.rng.chance(12) => vec![],
                _ if f == F::Z => vec![1; 1 + self.rng.below(3)],
                0 => vec![1],
                1 => vec![1; 1 + self.rng.below(3)],
                2 | 3 => vec![1],
                4 | 5 => vec![0],
                6 => vec![0, 1],
                7 => vec![1, 0],
                8 => {
                    let k = self.rng.below(4);
                    (0..k).map(|_| self.rng.below(2) as i64).collect()
                }
                _ => vec![],
            };
        }
        let mut vals: Vec<i64> = d.iter().cloned().filter(|&x| x != UNDET).collect();
        vals.sort();
        vals.dedup();
        let mut sel: Vec<i64> = vals.into_iter().filter(|_| self.rng.chance(50)).collect();
        if self.rng.chance(20) {
            sel.push(77);
        }
        if !sel.is_empty() && self.rng.chance(20) {
            let x = *self.rng.pick(&sel);
            sel.push(x);
        }
        if self.rng.chance(40) {
            self.rng.shuffle(&mut sel);
        }
        sel
    }
    /// keep the number of handles bounded
    pub fn trim(&mut self, max: usize) {
        if self.hs.len() > max {
            let mut idx = vec![];
            // duplicates and constants first
            let mut seen: HashSet<(F, usize)> = HashSet::new();
            for i in 0..self.hs.len() {
                let s = &self.hs[i];
                let dup = !seen.insert((s.f, s.h.id()));
                let flat = s.d.iter().all(|&x| x == s.d[0]);
                if (dup || flat) && self.rng.chance(70) && self.hs.len() - idx.len() > max * 2 / 3 {
                    idx.push(i);
                }
            }
            while self.hs.len() - idx.len() > max * 2 / 3 {
                let i = self.rng.below(self.hs.len());
                if !idx.contains(&i) {
                    idx.push(i);
                }
            }
            self.do_drop(&mut idx);
        }
    }
}

#[derive(Clone)]
pub struct Tok {
    pub text: String,
    pub json: String,
    pub ar: usize,  // operands (0: none)
    pub t: char,    // 'c' const 'v' var 's' save 'l' load 'o' op
    pub f: F,       // forest of a constant
    pub name: String,
    pub val: i64,
}
impl Tok {
    pub fn con(text: &str, f: F, v: i64) -> Tok {
        Tok {
            text: text.into(),
            json: format!("{{\"t\":\"const\",\"f\":\"{}\",\"v\":{}}}", f.s(), v),
            ar: 0,
            t: 'c',
            f,
            name: String::new(),
            val: v,
        }
    }
    pub fn var(nm: &str, u: usize, f: F) -> Tok {
        Tok {
            text: nm.into(),
            json: format!("{{\"t\":\"var\",\"nm\":{},\"u\":{}}}", jstr(nm), u),
            ar: 0,
            t: 'v',
            f,
            name: nm.into(),
            val: 0,
        }
    }
    pub fn save(n: &str) -> Tok {
        Tok {
            text: format!("save({})", n),
            json: format!("{{\"t\":\"save\",\"n\":{}}}", jstr(n)),
            ar: 0,
            t: 's',
            f: F::B,
            name: n.into(),
            val: 0,
        }
    }
    pub fn load(n: &str) -> Tok {
        Tok {
            text: format!("load({})", n),
            json: format!("{{\"t\":\"load\",\"n\":{}}}", jstr(n)),
            ar: 0,
            t: 'l',
            f: F::B,
            name: n.into(),
            val: 0,
        }
    }
    pub fn op(text: &str, o: &str) -> Tok {
        Tok {
            text: text.into(),
            json: format!("{{\"t\":\"op\",\"o\":\"{}\"}}", o),
            ar: if o == "not" { 1 } else if o == "ite" { 3 } else { 2 },
            t: 'o',
            f: F::B,
            name: o.into(),
            val: 0,
        }
    }
}
