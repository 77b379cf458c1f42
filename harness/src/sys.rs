//! One face over all managers of rust-dd: the six engine managers and the three wrappers.
use bddcore::prelude as bp;
use bddcore::prelude::{DDForest, Dot};
use bss::prelude::{BddNode, BssMgr, ZddMgr, ZddNode};
use mddcore::prelude as mp;
use mss::prelude::{MddNode, MssMgr, ZmddNode};
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

pub const UNDET: i64 = 999_999_999;
pub const BAD: i64 = -777_777;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum F {
    B,
    V,
    Z,
    Y,
}
impl F {
    pub fn s(self) -> &'static str {
        match self {
            F::B => "b",
            F::V => "v",
            F::Z => "z",
            F::Y => "y",
        }
    }
    pub fn zs(self) -> bool {
        matches!(self, F::Z | F::Y)
    }
    pub fn null(self) -> i64 {
        if self == F::Y {
            UNDET
        } else {
            0
        }
    }
}

pub enum Raw {
    T(i64),
    U,
    N(usize, Vec<usize>), // level, children
    Bad,
}

pub enum Hd {
    Core(F, usize),
    B(BddNode),
    Z(ZddNode),
    M(MddNode<i64>),
    Y(ZmddNode<i64>),
}

impl Hd {
    pub fn f(&self) -> F {
        match self {
            Hd::Core(f, _) => *f,
            Hd::B(_) => F::B,
            Hd::Z(_) => F::Z,
            Hd::M(n) => {
                if n.is_boolean() {
                    F::B
                } else {
                    F::V
                }
            }
            Hd::Y(_) => F::Y,
        }
    }
    pub fn id(&self) -> usize {
        match self {
            Hd::Core(_, i) => *i,
            Hd::B(n) => n.get_id(),
            Hd::Z(n) => n.get_id(),
            Hd::M(n) => n.get_id(),
            Hd::Y(n) => n.get_id(),
        }
    }
    pub fn dup(&self) -> Hd {
        match self {
            Hd::Core(f, i) => Hd::Core(*f, *i),
            Hd::B(n) => Hd::B(n.clone()),
            Hd::Z(n) => Hd::Z(n.clone()),
            Hd::M(n) => Hd::M(n.clone()),
            Hd::Y(n) => Hd::Y(n.clone()),
        }
    }
    fn b(&self) -> &BddNode {
        match self {
            Hd::B(n) => n,
            _ => unreachable!(),
        }
    }
    fn z(&self) -> &ZddNode {
        match self {
            Hd::Z(n) => n,
            _ => unreachable!(),
        }
    }
    pub fn m(&self) -> &MddNode<i64> {
        match self {
            Hd::M(n) => n,
            _ => unreachable!(),
        }
    }
    pub fn y(&self) -> &ZmddNode<i64> {
        match self {
            Hd::Y(n) => n,
            _ => unreachable!(),
        }
    }
}

pub enum M {
    Bdd(bp::BddManager),
    Zdd(bp::ZddManager),
    Mdd(mp::MddManager),
    Mt(mp::MtMddManager<i64>),
    Mt2(mp::MtMdd2Manager<i64>),
    Zmdd(mp::ZmddManager<i64>),
    Bss(BssMgr, Rc<RefCell<bp::BddManager>>, Rc<RefCell<bp::ZddManager>>),
    Zw(ZddMgr, Rc<RefCell<bp::ZddManager>>),
    Mss(
        MssMgr<i64>,
        Rc<RefCell<mp::MtMdd2Manager<i64>>>,
        RefCell<Option<Rc<RefCell<mp::ZmddManager<i64>>>>>,
    ),
}

pub struct Sys {
    pub m: M,
    pub kind: String,
    /// value scale: the diagram stores scale * (logged value)
    pub scale: i64,
}

fn raw_bdd(d: &bp::BddManager, id: usize) -> Raw {
    match d.get_node(&id) {
        None => Raw::Bad,
        Some(bp::Node::Zero) => Raw::T(0),
        Some(bp::Node::One) => Raw::T(1),
        Some(bp::Node::Undet) => Raw::U,
        Some(bp::Node::NonTerminal(n)) => match d.get_header(&n.headerid()) {
            Some(h) => Raw::N(h.level(), n.iter().collect()),
            None => Raw::Bad,
        },
    }
}
fn raw_zdd(d: &bp::ZddManager, id: usize) -> Raw {
    match d.get_node(&id) {
        None => Raw::Bad,
        Some(bp::Node::Zero) => Raw::T(0),
        Some(bp::Node::One) => Raw::T(1),
        Some(bp::Node::Undet) => Raw::U,
        Some(bp::Node::NonTerminal(n)) => match d.get_header(&n.headerid()) {
            Some(h) => Raw::N(h.level(), n.iter().collect()),
            None => Raw::Bad,
        },
    }
}
fn raw_mdd(d: &mp::MddManager, id: usize) -> Raw {
    match d.get_node(&id) {
        None => Raw::Bad,
        Some(mp::mdd::Node::Zero) => Raw::T(0),
        Some(mp::mdd::Node::One) => Raw::T(1),
        Some(mp::mdd::Node::Undet) => Raw::U,
        Some(mp::mdd::Node::NonTerminal(n)) => match d.get_header(&n.headerid()) {
            Some(h) => Raw::N(h.level(), n.iter().collect()),
            None => Raw::Bad,
        },
    }
}
fn unscale(v: i64, s: i64) -> i64 {
    if v % s != 0 || (v / s).abs() >= 900_000_000 {
        BAD
    } else {
        v / s
    }
}
macro_rules! raw_mt {
    ($d:expr, $id:expr, $s:expr) => {
        match $d.get_node(&$id) {
            None => Raw::Bad,
            Some(mp::mtmdd::Node::Undet) => Raw::U,
            Some(mp::mtmdd::Node::Terminal(t)) => {
                use mp::Terminal;
                Raw::T(unscale(t.value(), $s))
            }
            Some(mp::mtmdd::Node::NonTerminal(n)) => match $d.get_header(&n.headerid()) {
                Some(h) => Raw::N(h.level(), n.iter().collect()),
                None => Raw::Bad,
            },
        }
    };
}

pub struct Obs {
    pub f: F,
    pub id: usize,
    pub lv: i64,
    pub lb: String,
    pub ch: Vec<usize>,
}

impl Sys {
    pub fn new(kind: &str, scale: i64) -> Sys {
        let m = match kind {
            "bdd" => M::Bdd(bp::BddManager::new()),
            "zdd" => M::Zdd(bp::ZddManager::new()),
            "mdd" => M::Mdd(mp::MddManager::new()),
            "mtmdd" => M::Mt(mp::MtMddManager::new()),
            "mtmdd2" => M::Mt2(mp::MtMdd2Manager::new()),
            "zmdd" => M::Zmdd(mp::ZmddManager::new()),
            "bss" => {
                let m = BssMgr::new();
                let b = m.zero().get_mgr();
                let z = m.zdd().zero().get_mgr();
                M::Bss(m, b, z)
            }
            "zw" => {
                let m = ZddMgr::new();
                let z = m.zero().get_mgr();
                M::Zw(m, z)
            }
            "mss" => {
                let m: MssMgr<i64> = MssMgr::new();
                let b = m.boolean(false).get_mgr();
                M::Mss(m, b, RefCell::new(None))
            }
            _ => panic!("kind {}", kind),
        };
        Sys { m, kind: kind.to_string(), scale }
    }
    pub fn wrapper(&self) -> bool {
        matches!(self.kind.as_str(), "bss" | "zw" | "mss")
    }
    pub fn forests(&self) -> Vec<F> {
        match self.kind.as_str() {
            "bdd" | "mdd" => vec![F::B],
            "zdd" | "zw" => vec![F::Z],
            "mtmdd" => vec![F::V],
            "mtmdd2" => vec![F::B, F::V],
            "zmdd" => vec![F::Y],
            "bss" => vec![F::B, F::Z],
            _ => vec![F::B, F::V, F::Y],
        }
    }
    /// forest -> (live nodes, node store length)
    pub fn st(&self) -> Vec<(F, usize, usize)> {
        match &self.m {
            M::Bdd(d) => vec![(F::B, d.live_node_count(), d.size().1)],
            M::Zdd(d) => vec![(F::Z, d.live_node_count(), d.size().1)],
            M::Mdd(d) => vec![(F::B, d.live_node_count(), d.size().1)],
            M::Mt(d) => vec![(F::V, d.live_node_count(), d.size().1)],
            M::Mt2(d) => vec![
                (F::B, d.mdd().live_node_count(), d.mdd().size().1),
                (F::V, d.mtmdd().live_node_count(), d.mtmdd().size().1),
            ],
            M::Zmdd(d) => vec![(F::Y, d.live_node_count(), d.size().1)],
            M::Bss(m, _, _) => vec![
                (F::B, m.bdd().live_node_count(), m.bdd().size().1),
                (F::Z, m.zdd().live_node_count(), m.zdd().size().1),
            ],
            M::Zw(m, _) => vec![(F::Z, m.live_node_count(), m.size().1)],
            M::Mss(m, rc, y) => {
                let d = rc.borrow();
                let yl = match &*y.borrow() {
                    Some(r) => r.borrow().live_node_count(),
                    None => m.zmdd().size().1,
                };
                vec![
                    (F::B, d.mdd().live_node_count(), d.mdd().size().1),
                    (F::V, d.mtmdd().live_node_count(), d.mtmdd().size().1),
                    (F::Y, yl, m.zmdd().size().1),
                ]
            }
        }
    }
    pub fn raw(&self, f: F, id: usize) -> Raw {
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.raw1(f, id))).unwrap_or(Raw::Bad)
    }
    fn raw1(&self, f: F, id: usize) -> Raw {
        match &self.m {
            M::Bdd(d) => raw_bdd(d, id),
            M::Zdd(d) => raw_zdd(d, id),
            M::Mdd(d) => raw_mdd(d, id),
            M::Mt(d) => raw_mt!(d, id, self.scale),
            M::Mt2(d) => {
                if f == F::B {
                    raw_mdd(d.mdd(), id)
                } else {
                    raw_mt!(d.mtmdd(), id, self.scale)
                }
            }
            M::Zmdd(d) => raw_mt!(d, id, self.scale),
            M::Bss(_, b, z) => {
                if f == F::B {
                    raw_bdd(&b.borrow(), id)
                } else {
                    raw_zdd(&z.borrow(), id)
                }
            }
            M::Zw(_, z) => raw_zdd(&z.borrow(), id),
            M::Mss(_, d, y) => match f {
                F::B => raw_mdd(d.borrow().mdd(), id),
                F::V => raw_mt!(d.borrow().mtmdd(), id, self.scale),
                _ => match &*y.borrow() {
                    Some(r) => raw_mt!(r.borrow(), id, self.scale),
                    None => Raw::Bad,
                },
            },
        }
    }
    /// header labels by level of a forest
    pub fn header_of(&self, f: F, id: usize) -> Option<(usize, String)> {
        macro_rules! lab {
            ($d:expr) => {{
                let l = $d.level(&id)?;
                let s = $d.label(&id)?.to_string();
                Some((l, s))
            }};
        }
        match &self.m {
            M::Bdd(d) => lab!(d),
            M::Zdd(d) => lab!(d),
            M::Mdd(d) => lab!(d),
            M::Mt(d) => lab!(d),
            M::Mt2(d) => {
                if f == F::B {
                    lab!(d.mdd())
                } else {
                    lab!(d.mtmdd())
                }
            }
            M::Zmdd(d) => lab!(d),
            M::Bss(_, b, z) => {
                if f == F::B {
                    lab!(b.borrow())
                } else {
                    lab!(z.borrow())
                }
            }
            M::Zw(_, z) => lab!(z.borrow()),
            M::Mss(_, d, y) => match f {
                F::B => lab!(d.borrow().mdd()),
                F::V => lab!(d.borrow().mtmdd()),
                _ => match &*y.borrow() {
                    Some(r) => lab!(r.borrow()),
                    None => None,
                },
            },
        }
    }
    /// element order of a standalone set-family manager
    pub fn zw_order(&self) -> Vec<String> {
        match &self.m {
            M::Zw(_, z) => {
                let z = z.borrow();
                let n = z.size().0;
                let mut v: Vec<(usize, String)> = (0..n)
                    .map(|i| {
                        let h = z.get_header(&i).unwrap();
                        (h.level(), h.label().to_string())
                    })
                    .collect();
                v.sort();
                v.into_iter().map(|x| x.1).collect()
            }
            _ => vec![],
        }
    }
    /// root as reported by the public accessors
    pub fn root(&self, h: &Hd) -> Obs {
        let f = h.f();
        let id = h.id();
        let (lv, lb, ch): (Option<usize>, Option<String>, Vec<usize>) = match h {
            Hd::B(n) => (
                n.get_level(),
                n.get_label(),
                n.get_children().map(|(a, b)| vec![a.get_id(), b.get_id()]).unwrap_or_default(),
            ),
            Hd::Z(n) => (
                n.get_level(),
                n.get_label(),
                n.get_children().map(|(a, b)| vec![a.get_id(), b.get_id()]).unwrap_or_default(),
            ),
            Hd::M(n) => (
                n.get_level(),
                n.get_label(),
                n.get_children()
                    .map(|c| c.iter().map(|x| x.get_id()).collect())
                    .unwrap_or_default(),
            ),
            _ => {
                let ch = match self.raw(f, id) {
                    Raw::N(_, c) => c,
                    _ => vec![],
                };
                match self.header_of(f, id) {
                    Some((l, s)) => (Some(l), Some(s), ch),
                    None => (None, None, ch),
                }
            }
        };
        Obs { f, id, lv: lv.map(|x| x as i64).unwrap_or(-1), lb: lb.unwrap_or_default(), ch }
    }

    // ------------------------------------------------------------ building
    /// engine managers: one header per level, same id in every forest
    pub fn header(&mut self, level: usize, label: &str, k: usize) -> usize {
        match &mut self.m {
            M::Bdd(d) => d.create_header(level, label),
            M::Zdd(d) => d.create_header(level, label),
            M::Mdd(d) => d.create_header(level, label, k),
            M::Mt(d) => d.create_header(level, label, k),
            M::Mt2(d) => d.create_header(level, label, k),
            M::Zmdd(d) => d.create_header(level, label, k),
            _ => unreachable!(),
        }
    }
    /// Wrappers: nodes nobody holds, made in the arenas themselves until about n of them are there, so
    /// that whatever the wrapper makes next has a large id.  hdr, k: headers and states of the declared
    /// variables by level; the families' arenas get headers of their own, above all variables.
    pub fn garbage(&mut self, hdr: &[usize], k: &[usize], n: usize, rng: &mut crate::util::Rng) {
        // node(level, children), len()
        fn fill(hdr: &[usize], k: &[usize], terms: &[usize], n: usize, rng: &mut crate::util::Rng, node: &mut dyn FnMut(usize, &[usize]) -> usize, len: &dyn Fn() -> usize) {
            let mut pool: Vec<usize> = terms.to_vec();
            let mut bounds = vec![pool.len()];
            let per = n / hdr.len() + 1;
            for l in 0..hdr.len() {
                let lower = *bounds.last().unwrap();
                for _ in 0..if l + 1 == hdr.len() { 2 * n } else { per } {
                    let ch: Vec<usize> = (0..k[l]).map(|_| pool[rng.below(lower)]).collect();
                    pool.push(node(hdr[l], &ch));
                    if pool.len() % 1024 == 0 && len() >= n {
                        return;
                    }
                }
                bounds.push(pool.len());
            }
        }
        let extra = 20;
        match &mut self.m {
            M::Bss(_, b, z) => {
                let t = vec![b.borrow().zero(), b.borrow().one()];
                fill(hdr, k, &t, n, rng, &mut |h, c| b.borrow_mut().create_node(h, c[0], c[1]), &|| b.borrow().live_node_count());
                fill_z(z, extra, n, rng);
            }
            M::Zw(_, z) => fill_z(z, extra, n, rng),
            M::Mss(_, d, y) => {
                let b = |x| mp::Node::Bool(x);
                let v = |x| mp::Node::Value(x);
                let id = |x: mp::Node| match x {
                    mp::Node::Bool(i) | mp::Node::Value(i) => i,
                };
                let t = vec![id(d.borrow().zero()), id(d.borrow().one())];
                fill(
                    hdr,
                    k,
                    &t,
                    n,
                    rng,
                    &mut |h, c| id(d.borrow_mut().create_node(h, &c.iter().map(|&x| b(x)).collect::<Vec<_>>())),
                    &|| d.borrow().mdd().live_node_count(),
                );
                let t: Vec<usize> = (0..400).map(|x| id(d.borrow_mut().value(x * self.scale))).collect();
                fill(
                    hdr,
                    k,
                    &t,
                    n,
                    rng,
                    &mut |h, c| id(d.borrow_mut().create_node(h, &c.iter().map(|&x| v(x)).collect::<Vec<_>>())),
                    &|| d.borrow().mtmdd().live_node_count(),
                );
                if let Some(r) = &*y.borrow() {
                    let hs: Vec<usize> = (0..extra).map(|i| r.borrow_mut().create_header(1000 + i, &format!("garbage {}", i), 2)).collect();
                    let t: Vec<usize> = (0..3).map(|x| r.borrow_mut().value(x)).collect();
                    fill(&hs, &vec![2; extra], &t, n, rng, &mut |h, c| r.borrow_mut().create_node(h, c), &|| r.borrow().live_node_count());
                }
            }
            M::Bdd(d) => {
                let hs: Vec<usize> = (0..extra).map(|i| d.create_header(1000 + i, &format!("garbage {}", i))).collect();
                let t = vec![d.zero(), d.one()];
                let d = RefCell::new(d);
                fill(&hs, &vec![2; extra], &t, n, rng, &mut |h, c| d.borrow_mut().create_node(h, c[0], c[1]), &|| d.borrow().live_node_count());
            }
            M::Zdd(d) => {
                let hs: Vec<usize> = (0..extra).map(|i| d.create_header(1000 + i, &format!("garbage {}", i))).collect();
                let t = vec![d.zero(), d.one()];
                let d = RefCell::new(d);
                fill(&hs, &vec![2; extra], &t, n, rng, &mut |h, c| d.borrow_mut().create_node(h, c[0], c[1]), &|| d.borrow().live_node_count());
            }
            M::Mdd(d) => {
                let hs: Vec<usize> = (0..extra).map(|i| d.create_header(1000 + i, &format!("garbage {}", i), 3)).collect();
                let t = vec![d.zero(), d.one()];
                let d = RefCell::new(d);
                fill(&hs, &vec![3; extra], &t, n, rng, &mut |h, c| d.borrow_mut().create_node(h, c), &|| d.borrow().live_node_count());
            }
            M::Mt(d) => {
                let hs: Vec<usize> = (0..extra).map(|i| d.create_header(1000 + i, &format!("garbage {}", i), 3)).collect();
                let t: Vec<usize> = (0..3).map(|x| d.value(x * self.scale)).collect();
                let d = RefCell::new(d);
                fill(&hs, &vec![3; extra], &t, n, rng, &mut |h, c| d.borrow_mut().create_node(h, c), &|| d.borrow().live_node_count());
            }
            M::Zmdd(d) => {
                let hs: Vec<usize> = (0..extra).map(|i| d.create_header(1000 + i, &format!("garbage {}", i), 3)).collect();
                let t: Vec<usize> = (0..3).map(|x| d.value(x * self.scale)).collect();
                let d = RefCell::new(d);
                fill(&hs, &vec![3; extra], &t, n, rng, &mut |h, c| d.borrow_mut().create_node(h, c), &|| d.borrow().live_node_count());
            }
            M::Mt2(d) => {
                let b = |x| mp::Node::Bool(x);
                let v = |x| mp::Node::Value(x);
                let id = |x: mp::Node| match x {
                    mp::Node::Bool(i) | mp::Node::Value(i) => i,
                };
                let hs: Vec<usize> = (0..extra).map(|i| d.create_header(1000 + i, &format!("garbage {}", i), 3)).collect();
                let t = vec![id(d.zero()), id(d.one())];
                let tv: Vec<usize> = (0..3).map(|x| id(d.value(x * self.scale))).collect();
                let d = RefCell::new(d);
                fill(
                    &hs,
                    &vec![3; extra],
                    &t,
                    n,
                    rng,
                    &mut |h, c| id(d.borrow_mut().create_node(h, &c.iter().map(|&x| b(x)).collect::<Vec<_>>())),
                    &|| d.borrow().mdd().live_node_count(),
                );
                fill(
                    &hs,
                    &vec![3; extra],
                    &tv,
                    n,
                    rng,
                    &mut |h, c| id(d.borrow_mut().create_node(h, &c.iter().map(|&x| v(x)).collect::<Vec<_>>())),
                    &|| d.borrow().mtmdd().live_node_count(),
                );
            }
        }
        fn fill_z(z: &Rc<RefCell<bp::ZddManager>>, extra: usize, n: usize, rng: &mut crate::util::Rng) {
            let hs: Vec<usize> = (0..extra).map(|i| z.borrow_mut().create_header(1000 + i, &format!("garbage {}", i))).collect();
            let t = vec![z.borrow().zero(), z.borrow().one()];
            fill(&hs, &vec![2; extra], &t, n, rng, &mut |h, c| z.borrow_mut().create_node(h, c[0], c[1]), &|| z.borrow().live_node_count());
        }
    }
    pub fn constant(&mut self, f: F, c: i64) -> Hd {
        let s = self.scale;
        match &mut self.m {
            M::Bdd(d) => Hd::Core(f, if c == UNDET { d.undet() } else if c == 1 { d.one() } else { d.zero() }),
            M::Zdd(d) => Hd::Core(f, if c == UNDET { d.undet() } else if c == 1 { d.one() } else { d.zero() }),
            M::Mdd(d) => Hd::Core(f, if c == UNDET { d.undet() } else if c == 1 { d.one() } else { d.zero() }),
            M::Mt(d) => Hd::Core(f, if c == UNDET { d.undet() } else { d.value(c * s) }),
            M::Zmdd(d) => Hd::Core(f, if c == UNDET { d.undet() } else { d.value(c * s) }),
            M::Mt2(d) => {
                let n = match (f, c) {
                    (F::B, UNDET) => d.undet_boolean(),
                    (F::B, 1) => d.one(),
                    (F::B, _) => d.zero(),
                    (_, UNDET) => d.undet_value(),
                    (_, c) => d.value(c * s),
                };
                from2(n)
            }
            M::Bss(m, _, _) => match f {
                F::B => Hd::B(if c == 1 { m.one() } else { m.zero() }),
                _ => Hd::Z(if c == 1 { m.zdd().one() } else { m.zdd().zero() }),
            },
            M::Zw(m, _) => Hd::Z(if c == 1 { m.base() } else { m.empty() }),
            M::Mss(m, _, _) => Hd::M(match (f, c) {
                (F::B, UNDET) => m.undet_boolean(),
                (F::B, c) => m.boolean(c == 1),
                (_, UNDET) => m.undet_value(),
                (_, c) => m.value(c * s),
            }),
        }
    }
    pub fn create(&mut self, hid: usize, a: &[&Hd]) -> Hd {
        let ids: Vec<usize> = a.iter().map(|x| x.id()).collect();
        let f = a[0].f();
        match &mut self.m {
            M::Bdd(d) => Hd::Core(f, d.create_node(hid, ids[0], ids[1])),
            M::Zdd(d) => Hd::Core(f, d.create_node(hid, ids[0], ids[1])),
            M::Mdd(d) => Hd::Core(f, d.create_node(hid, &ids)),
            M::Mt(d) => Hd::Core(f, d.create_node(hid, &ids)),
            M::Zmdd(d) => Hd::Core(f, d.create_node(hid, &ids)),
            M::Mt2(d) => {
                let ns: Vec<mp::Node> = ids.iter().map(|&i| to2(f, i)).collect();
                from2(d.create_node(hid, &ns))
            }
            M::Bss(m, _, _) => Hd::B(m.create_node(hid, a[0].b(), a[1].b())),
            M::Mss(m, _, _) => {
                let v: Vec<MddNode<i64>> = a.iter().map(|x| x.m().clone()).collect();
                Hd::M(m.create_node(hid, &v))
            }
            M::Zw(..) => unreachable!(),
        }
    }
    pub fn defvar(&mut self, nm: &str, k: usize) -> Hd {
        match &mut self.m {
            M::Bss(m, _, _) => Hd::B(m.defvar(nm)),
            M::Mss(m, _, _) => Hd::M(m.defvar(nm, k)),
            M::Zw(m, _) => Hd::Z(m.singleton(nm)),
            _ => unreachable!(),
        }
    }
    /// number of variables and of stored results a manager reports
    pub fn sizes(&self) -> (usize, usize) {
        match &self.m {
            M::Bdd(d) => (d.size().0, d.size().2),
            M::Zdd(d) => (d.size().0, d.size().2),
            M::Mdd(d) => (d.size().0, d.size().2),
            M::Mt(d) => (d.size().0, d.size().3),
            M::Mt2(d) => (d.size().0, d.size().3),
            M::Zmdd(d) => (d.size().0, d.size().3),
            M::Bss(m, _, _) => (m.size().0, m.size().2 + m.zdd().size().2),
            M::Zw(m, _) => (m.size().0, m.size().2),
            M::Mss(m, _, _) => (m.size().0, m.size().3 + m.zmdd().size().3),
        }
    }
    pub fn varorder(&self) -> Vec<(String, usize)> {
        match &self.m {
            M::Bss(m, _, _) => m.get_varorder().into_iter().map(|s| (s, 2)).collect(),
            M::Mss(m, _, _) => m.get_varorder(),
            M::Zw(..) => self.zw_order().into_iter().map(|s| (s, 2)).collect(),
            _ => vec![],
        }
    }
    pub fn from_sets(&mut self, sets: &[Vec<String>]) -> Hd {
        match &mut self.m {
            M::Zw(m, _) => Hd::Z(m.from_sets(sets)),
            _ => unreachable!(),
        }
    }
    pub fn children(&self, h: &Hd) -> Option<Vec<Hd>> {
        match h {
            Hd::B(n) => n.get_children().map(|(a, b)| vec![Hd::B(a), Hd::B(b)]),
            Hd::Z(n) => n.get_children().map(|(a, b)| vec![Hd::Z(a), Hd::Z(b)]),
            Hd::M(n) => n.get_children().map(|c| c.into_iter().map(Hd::M).collect()),
            Hd::Core(f, i) => match self.raw(*f, *i) {
                Raw::N(_, c) => Some(c.into_iter().map(|x| Hd::Core(*f, x)).collect()),
                _ => None,
            },
            Hd::Y(_) => None,
        }
    }
    pub fn header_id(&self, h: &Hd) -> Option<usize> {
        match h {
            Hd::B(n) => n.get_header(),
            Hd::Z(n) => n.get_header(),
            Hd::M(n) => n.get_header(),
            _ => None,
        }
    }

    /// the header of a declared variable whose handle is a constant (one state only)
    pub fn header_named(&self, h: &Hd, nm: &str) -> Option<usize> {
        match h {
            Hd::M(n) => {
                let m = n.get_mgr();
                let d = m.borrow();
                let d = d.mtmdd();
                (0..d.size().0).find(|x| d.get_header(x).map(|y| y.label() == nm).unwrap_or(false))
            }
            _ => None,
        }
    }

    // ------------------------------------------------------------ operators
    pub fn op(&mut self, op: &str, a: &[&Hd], p: i64) -> Hd {
        let i = |k: usize| a[k].id();
        let f0 = a.first().map(|x| x.f()).unwrap_or(F::B);
        match &mut self.m {
            M::Bdd(d) => Hd::Core(
                F::B,
                match op {
                    "and" => d.and(i(0), i(1)),
                    "or" => d.or(i(0), i(1)),
                    "xor" => d.xor(i(0), i(1)),
                    "not" => d.not(i(0)),
                    "imp" => d.imp(i(0), i(1)),
                    "nand" => d.nand(i(0), i(1)),
                    "nor" => d.nor(i(0), i(1)),
                    "xnor" => d.xnor(i(0), i(1)),
                    "ite" => d.ite(i(0), i(1), i(2)),
                    _ => panic!("op {}", op),
                },
            ),
            M::Zdd(d) => Hd::Core(
                F::Z,
                match op {
                    "union" => d.union(i(0), i(1)),
                    "intersect" => d.intersect(i(0), i(1)),
                    "setdiff" => d.setdiff(i(0), i(1)),
                    "product" => d.product(i(0), i(1)),
                    "divide" => d.divide(i(0), i(1)),
                    _ => panic!("op {}", op),
                },
            ),
            M::Mdd(d) => Hd::Core(
                F::B,
                match op {
                    "and" => d.and(i(0), i(1)),
                    "or" => d.or(i(0), i(1)),
                    "xor" => d.xor(i(0), i(1)),
                    "not" => d.not(i(0)),
                    "imp" => d.imp(i(0), i(1)),
                    "nand" => d.nand(i(0), i(1)),
                    "nor" => d.nor(i(0), i(1)),
                    "xnor" => d.xnor(i(0), i(1)),
                    "ite" => d.ite(i(0), i(1), i(2)),
                    "replace" => d.replace(i(0), i(1)),
                    _ => panic!("op {}", op),
                },
            ),
            M::Mt(d) => Hd::Core(
                F::V,
                match op {
                    "add" => d.add(i(0), i(1)),
                    "sub" => d.sub(i(0), i(1)),
                    "mul" => d.mul(i(0), i(1)),
                    "div" => d.div(i(0), i(1)),
                    "rem" => d.rem(i(0), i(1)),
                    "min" => d.min(i(0), i(1)),
                    "max" => d.max(i(0), i(1)),
                    "replace" => d.replace(i(0), i(1)),
                    _ => panic!("op {}", op),
                },
            ),
            M::Zmdd(d) => Hd::Core(
                F::Y,
                match op {
                    "yintersect" => d.intersect(i(0), i(1)),
                    "ysetdiff" => d.setdiff(i(0), i(1)),
                    _ => panic!("op {}", op),
                },
            ),
            M::Mt2(d) => {
                let n = |k: usize| to2(a[k].f(), a[k].id());
                // operators of the two forests below the combined manager
                match op {
                    "imp" => return Hd::Core(F::B, d.mdd_mut().imp(i(0), i(1))),
                    "nand" => return Hd::Core(F::B, d.mdd_mut().nand(i(0), i(1))),
                    "nor" => return Hd::Core(F::B, d.mdd_mut().nor(i(0), i(1))),
                    "xnor" => return Hd::Core(F::B, d.mdd_mut().xnor(i(0), i(1))),
                    "replace" if f0 == F::B => return Hd::Core(F::B, d.mdd_mut().replace(i(0), i(1))),
                    "replace" => return Hd::Core(F::V, d.mtmdd_mut().replace(i(0), i(1))),
                    "rem" => return Hd::Core(F::V, d.mtmdd_mut().rem(i(0), i(1))),
                    "vif" => return Hd::Core(F::V, d.vif(i(0), i(1))),
                    _ => {}
                }
                from2(match op {
                    "and" => d.and(n(0), n(1)),
                    "or" => d.or(n(0), n(1)),
                    "xor" => d.xor(n(0), n(1)),
                    "not" => d.not(n(0)),
                    "add" => d.add(n(0), n(1)),
                    "sub" => d.sub(n(0), n(1)),
                    "mul" => d.mul(n(0), n(1)),
                    "div" => d.div(n(0), n(1)),
                    "min" => d.min(n(0), n(1)),
                    "max" => d.max(n(0), n(1)),
                    "eq" => d.eq(n(0), n(1)),
                    "neq" => d.neq(n(0), n(1)),
                    "lt" => d.lt(n(0), n(1)),
                    "lte" => d.lte(n(0), n(1)),
                    "gt" => d.gt(n(0), n(1)),
                    "gte" => d.gte(n(0), n(1)),
                    "ite" => d.ite(n(0), n(1), n(2)),
                    _ => panic!("op {}", op),
                })
            }
            M::Bss(m, _, _) if f0 == F::B => Hd::B(match op {
                "and" => a[0].b().and(a[1].b()),
                "or" => a[0].b().or(a[1].b()),
                "xor" => a[0].b().xor(a[1].b()),
                "not" => a[0].b().not(),
                "ite" => a[0].b().ite(a[1].b(), a[2].b()),
                "dual" => a[0].b().dual(),
                _ => {
                    let v: Vec<BddNode> = a.iter().map(|x| x.b().clone()).collect();
                    match op {
                        "andn" => m.and(&v),
                        "orn" => m.or(&v),
                        "kofn" => m.kofn(p as usize, &v),
                        _ => panic!("op {}", op),
                    }
                }
            }),
            M::Bss(..) | M::Zw(..) => Hd::Z(match op {
                "union" => a[0].z().union(a[1].z()),
                "intersect" => a[0].z().intersect(a[1].z()),
                "setdiff" => a[0].z().setdiff(a[1].z()),
                "product" => a[0].z().product(a[1].z()),
                "divide" => a[0].z().divide(a[1].z()),
                _ => panic!("op {}", op),
            }),
            M::Mss(..) if f0 == F::Y => Hd::Y(match op {
                "yintersect" => a[0].y().intersect(a[1].y()),
                "ysetdiff" => a[0].y().setdiff(a[1].y()),
                _ => panic!("op {}", op),
            }),
            M::Mss(m, _, _) => Hd::M({
                let n = |k: usize| a[k].m();
                match op {
                    "and" => n(0).and(n(1)),
                    "or" => n(0).or(n(1)),
                    "xor" => n(0).xor(n(1)),
                    "not" => n(0).not(),
                    "add" => n(0).add(n(1)),
                    "sub" => n(0).sub(n(1)),
                    "mul" => n(0).mul(n(1)),
                    "div" => n(0).div(n(1)),
                    "min" => n(0).min(n(1)),
                    "max" => n(0).max(n(1)),
                    "eq" => n(0).eq(n(1)),
                    "neq" => n(0).ne(n(1)),
                    "lt" => n(0).lt(n(1)),
                    "lte" => n(0).le(n(1)),
                    "gt" => n(0).gt(n(1)),
                    "gte" => n(0).ge(n(1)),
                    "ite" => n(0).ite(n(1), n(2)),
                    _ => {
                        let v: Vec<MddNode<i64>> = a.iter().map(|x| x.m().clone()).collect();
                        match op {
                            "andn" => m.and(&v),
                            "orn" => m.or(&v),
                            "minn" => m.min(&v),
                            "maxn" => m.max(&v),
                            _ => panic!("op {}", op),
                        }
                    }
                }
            }),
        }
    }
    /// minimal paths ("path") or cuts ("cut")
    pub fn minsol(&self, w: &str, a: &Hd) -> Option<Hd> {
        match &self.m {
            M::Bss(m, _, _) => (if w == "cut" { m.mincut(a.b()) } else { m.minpath(a.b()) }).map(Hd::Z),
            M::Mss(m, _, y) => {
                let r = if w == "cut" { m.mincut(a.m()) } else { m.minpath(a.m()) };
                if let Some(n) = &r {
                    if y.borrow().is_none() {
                        *y.borrow_mut() = Some(n.get_mgr());
                    }
                }
                r.map(Hd::Y)
            }
            _ => unreachable!(),
        }
    }
    pub fn rpn(&mut self, s: &str, vars: &HashMap<String, usize>) -> Result<Hd, String> {
        match &mut self.m {
            M::Bss(m, _, _) => m.rpn(s).map(Hd::B),
            M::Mss(m, _, _) => m.rpn(s, vars).map(Hd::M),
            _ => unreachable!(),
        }
    }
    pub fn clear(&mut self) {
        match &mut self.m {
            M::Bdd(d) => d.clear_cache(),
            M::Zdd(d) => d.clear_cache(),
            M::Mdd(d) => d.clear_cache(),
            M::Mt(d) => d.clear_cache(),
            M::Mt2(d) => d.clear_cache(),
            M::Zmdd(d) => d.clear_cache(),
            M::Bss(m, _, _) => m.clear_cache(),
            M::Zw(m, _) => m.clear_cache(),
            M::Mss(m, _, _) => m.clear_cache(),
        }
    }
    /// explicit collection of the forests fs with the given roots
    pub fn gc(&mut self, fs: &[F], keep: &[&Hd]) {
        let ids: Vec<usize> = keep.iter().map(|h| h.id()).collect();
        let of = |f: F| keep.iter().filter(|h| h.f() == f).map(|h| h.id()).collect::<Vec<usize>>();
        match &mut self.m {
            M::Bdd(d) => {
                d.gc(&ids);
            }
            M::Zdd(d) => {
                d.gc(&ids);
            }
            M::Mdd(d) => {
                d.gc(&ids);
            }
            M::Mt(d) => {
                d.gc(&ids);
            }
            M::Zmdd(d) => {
                d.gc(&ids);
            }
            M::Mt2(d) => {
                let ns: Vec<mp::Node> = keep.iter().map(|h| to2(h.f(), h.id())).collect();
                d.gc(&ns);
            }
            M::Bss(m, _, z) => {
                if fs.contains(&F::B) {
                    let v: Vec<&BddNode> = keep.iter().filter(|h| h.f() == F::B).map(|h| h.b()).collect();
                    m.bdd().gc(&v);
                }
                if fs.contains(&F::Z) {
                    z.borrow_mut().gc(&of(F::Z));
                }
            }
            M::Zw(_, z) => {
                z.borrow_mut().gc(&of(F::Z));
            }
            M::Mss(m, _, y) => {
                if fs.contains(&F::B) {
                    let v: Vec<&MddNode<i64>> =
                        keep.iter().filter(|h| h.f() != F::Y).map(|h| h.m()).collect();
                    m.gc(&v);
                }
                if fs.contains(&F::Y) {
                    if let Some(r) = &*y.borrow() {
                        r.borrow_mut().gc(&of(F::Y));
                    }
                }
            }
        }
    }
    pub fn set_threshold(&mut self, f: F, t: usize) {
        match &mut self.m {
            M::Bss(m, _, _) => {
                if f == F::B {
                    m.bdd().set_gc_threshold(t)
                } else {
                    m.zdd().set_gc_threshold(t)
                }
            }
            M::Zw(m, _) => m.set_gc_threshold(t),
            M::Mss(m, _, _) => m.set_gc_threshold(t),
            _ => unreachable!(),
        }
    }
    pub fn dot(&self, h: &Hd) -> String {
        match h {
            Hd::B(n) => n.dot(),
            Hd::Z(n) => n.dot(),
            Hd::M(n) => n.dot(),
            Hd::Y(n) => n.dot(),
            Hd::Core(f, i) => match &self.m {
                M::Bdd(d) => d.dot_string(i),
                M::Zdd(d) => d.dot_string(i),
                M::Mdd(d) => d.dot_string(i),
                M::Mt(d) => d.dot_string(i),
                M::Zmdd(d) => d.dot_string(i),
                M::Mt2(d) => d.dot_string(&to2(*f, *i)),
                _ => unreachable!(),
            },
        }
    }
    pub fn size(&self, h: &Hd) -> Option<(u64, u64, u64)> {
        match h {
            Hd::B(n) => Some(n.size()),
            Hd::Z(n) => Some(n.size()),
            Hd::M(n) => Some(n.size()),
            _ => None,
        }
    }
    /// constant predicates: zero, one, undetermined, then for the multi-state handles
    /// Boolean, value, has a constant value, that value
    pub fn flags(&self, h: &Hd) -> Option<Vec<i64>> {
        match h {
            Hd::B(n) => Some(vec![n.is_zero() as i64, n.is_one() as i64, n.is_undet() as i64]),
            Hd::Z(n) => Some(vec![n.is_zero() as i64, n.is_one() as i64]),
            Hd::M(n) => {
                let v = n.value();
                Some(vec![
                    n.is_zero() as i64,
                    n.is_one() as i64,
                    n.is_undet() as i64,
                    n.is_boolean() as i64,
                    n.is_value() as i64,
                    v.is_some() as i64,
                    v.map_or(0, |x| unscale(x, self.scale)),
                ])
            }
            _ => None,
        }
    }
    /// equality through the public comparison where there is one
    pub fn eq(&self, a: &Hd, b: &Hd) -> bool {
        match (a, b) {
            (Hd::B(x), Hd::B(y)) => x.eq(y),
            (Hd::Z(x), Hd::Z(y)) => x.eq(y),
            (Hd::M(x), Hd::M(y)) => x.get_node() == y.get_node(),
            _ => a.f() == b.f() && a.id() == b.id(),
        }
    }
    /// the counting and enumeration calls, selection as logged values
    pub fn count(&self, h: &Hd, sel: &[i64]) -> u64 {
        let bs: Vec<bool> = sel.iter().map(|&x| x == 1).collect();
        let hs: HashSet<i64> = sel.iter().map(|&x| self.sc(h.f(), x)).collect();
        match h {
            Hd::B(n) => n.bdd_count(&bs),
            Hd::Z(n) => n.count(&bs),
            Hd::M(n) => n.mdd_count(&hs),
            Hd::Y(n) => n.count(&hs),
            _ => unreachable!(),
        }
    }
    /// the count in a number type that never overflows (modulo a prime)
    pub fn count_mod(&self, h: &Hd, sel: &[i64]) -> i64 {
        let bs: Vec<bool> = sel.iter().map(|&x| x == 1).collect();
        let hs: HashSet<i64> = sel.iter().map(|&x| self.sc(h.f(), x)).collect();
        crate::util::P.with(|p| p.set(46337));
        let r: crate::util::Zp = match h {
            Hd::B(n) => bss::bdd_count::bdd_count(&n.get_mgr().borrow(), &bs, n.get_id(), &mut Default::default()),
            Hd::Z(n) => bss::zdd_count::zdd_count(&n.get_mgr().borrow(), &bs, n.get_id(), &mut Default::default()),
            Hd::M(n) => mss::mdd_count::mdd_count(&n.get_mgr().borrow(), &n.get_node(), &hs),
            _ => unreachable!(),
        };
        r.0
    }
    pub fn sc(&self, f: F, x: i64) -> i64 {
        if f == F::B {
            x
        } else {
            x * self.scale
        }
    }
}

pub fn to2(f: F, i: usize) -> mp::Node {
    if f == F::B {
        mp::Node::Bool(i)
    } else {
        mp::Node::Value(i)
    }
}
pub fn from2(n: mp::Node) -> Hd {
    match n {
        mp::Node::Value(i) => Hd::Core(F::V, i),
        mp::Node::Bool(i) => Hd::Core(F::B, i),
    }
}
