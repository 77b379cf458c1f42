use std::fs::File;
use std::io::{BufWriter, Write};
use std::os::unix::fs::FileExt;

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    pub fn range(&mut self, a: i64, b: i64) -> i64 {
        a + self.below((b - a + 1) as usize) as i64
    }
    pub fn chance(&mut self, pct: usize) -> bool {
        self.below(100) < pct
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}

pub struct Out {
    w: BufWriter<File>,
    intent: File,
    pub lines: usize,
    pub bytes: usize,
}
impl Out {
    pub fn new(path: &str, intent: &str) -> Out {
        Out {
            w: BufWriter::new(File::create(path).unwrap()),
            intent: File::create(intent).unwrap(),
            lines: 0,
            bytes: 0,
        }
    }
    pub fn line(&mut self, s: &str) {
        self.w.write_all(s.as_bytes()).unwrap();
        self.w.write_all(b"\n").unwrap();
        self.lines += 1;
        self.bytes += s.len();
    }
    /// what is about to be called: survives a crash or a hang of the code under test
    pub fn intent(&mut self, tags: &[String], what: &str) {
        let mut s = format!("{} {}", tags.join(","), what);
        s.truncate(120);
        while s.len() < 120 {
            s.push(' ');
        }
        let _ = self.intent.write_all_at(s.as_bytes(), 0);
    }
    pub fn flush(&mut self) {
        self.w.flush().unwrap();
    }
}

pub fn jarr<T: std::fmt::Display>(v: &[T]) -> String {
    let mut s = String::from("[");
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        s.push_str(&x.to_string());
    }
    s.push(']');
    s
}
pub fn jstr(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            c if (c as u32) < 32 || (c as u32) > 126 => r.push_str(&format!("~{:x}~", c as u32)),
            c => r.push(c),
        }
    }
    r.push('"');
    r
}
pub fn jstrs(v: &[String]) -> String {
    jarr(&v.iter().map(|s| jstr(s)).collect::<Vec<_>>())
}

/// Arithmetic modulo a small prime, for exact probabilities of any size.
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Zp(pub i64);
thread_local! { pub static P: std::cell::Cell<i64> = const { std::cell::Cell::new(46337) }; }
fn md(x: i64) -> Zp {
    let p = P.with(|p| p.get());
    Zp(((x % p) + p) % p)
}
impl std::ops::Add for Zp {
    type Output = Zp;
    fn add(self, o: Zp) -> Zp {
        md(self.0 + o.0)
    }
}
impl std::ops::Sub for Zp {
    type Output = Zp;
    fn sub(self, o: Zp) -> Zp {
        md(self.0 - o.0)
    }
}
impl std::ops::Mul for Zp {
    type Output = Zp;
    fn mul(self, o: Zp) -> Zp {
        md(self.0 * o.0)
    }
}
impl From<f64> for Zp {
    fn from(x: f64) -> Zp {
        md(x as i64)
    }
}

/// Interval arithmetic on dyadic numbers (exact in f64 for the sizes used here).
impl From<u32> for Zp {
    fn from(x: u32) -> Zp {
        md(x as i64)
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Iv(pub f64, pub f64);
impl std::ops::Add for Iv {
    type Output = Iv;
    fn add(self, o: Iv) -> Iv {
        Iv(self.0 + o.0, self.1 + o.1)
    }
}
impl std::ops::Sub for Iv {
    type Output = Iv;
    fn sub(self, o: Iv) -> Iv {
        Iv(self.0 - o.1, self.1 - o.0)
    }
}
impl std::ops::Mul for Iv {
    type Output = Iv;
    fn mul(self, o: Iv) -> Iv {
        let c = [self.0 * o.0, self.0 * o.1, self.1 * o.0, self.1 * o.1];
        Iv(c.iter().cloned().fold(f64::INFINITY, f64::min), c.iter().cloned().fold(f64::NEG_INFINITY, f64::max))
    }
}
impl From<f64> for Iv {
    fn from(x: f64) -> Iv {
        Iv(x, x)
    }
}
