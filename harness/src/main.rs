mod cachew;
mod episode;
mod exh;
mod gen;
mod huge;
mod mass;
mod script;
mod sys;
mod util;
use gen::*;
use std::collections::HashMap;
use util::*;

/// ddh walk OUT INTENT kind=K seed=S episodes=N [weights...]
fn main() {
    if std::env::var("DDH_PANIC").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let a: Vec<String> = std::env::args().collect();
    let th = std::thread::Builder::new()
        .stack_size(1 << 30)
        .spawn(move || real(a))
        .unwrap();
    if th.join().is_err() {
        eprintln!("harness panicked");
        std::process::exit(3);
    }
}

fn real(a: Vec<String>) {
    let mut s: HashMap<String, String> = HashMap::new();
    for x in &a[4..] {
        if let Some((k, v)) = x.split_once('=') {
            s.insert(k.into(), v.into());
        }
    }
    let mut out = Out::new(&a[2], &a[3]);
    let w: HashMap<String, i64> =
        s.iter().filter_map(|(k, v)| v.parse::<i64>().ok().map(|x| (k.clone(), x))).collect();
    let cfg = Cfg { w };
    let seed = cfg.or("seed", 1) as u64;
    match a[1].as_str() {
        "walk" => {
            let kind = s.get("kind").cloned().unwrap_or("bss".into());
            for e in 0..cfg.or("episodes", 10) as u64 {
                let mut rng = Rng(seed.wrapping_mul(1_000_003).wrapping_add(e * 7919 + 13));
                for _ in 0..5 {
                    rng.next();
                }
                let bin = matches!(kind.as_str(), "bdd" | "zdd" | "bss" | "zw");
                let mut ar = episode::shape(&mut rng, bin, cfg.or("maxpts", 32) as usize);
                // one variable with very many states
                if !bin && (rng.below(100) as i64) < cfg.get("bigk") {
                    let k = *rng.pick(&[17usize, 64, 130, 257, 280, 300]);
                    ar = if k < 140 && rng.chance(60) { vec![k, 2] } else { vec![k] };
                    rng.shuffle(&mut ar);
                }
                // variables with a single state
                if kind == "mss" && (rng.below(100) as i64) < cfg.get("single") {
                    for _ in 0..1 + rng.below(2) {
                        let p = rng.below(ar.len() + 1);
                        ar.insert(p, 1);
                    }
                }
                let names = episode::names_for(&mut rng, ar.len());
                let sc = if cfg.get("scale") > 0 && matches!(kind.as_str(), "mtmdd" | "mtmdd2" | "zmdd") && rng.chance(40) {
                    *rng.pick(&[1i64 << 20, 1 << 33, 1 << 34, 3_000_000_019])
                } else {
                    1
                };
                let sd = rng.next();
                let mut c = Ctx::new(&kind, ar, names, None, sd, sc, &mut out, &cfg);
                c.run();
            }
        }
        // tens of variables: a few explicit, many hidden behind a weighted sum
        "sum" => {
            let kind = s.get("kind").cloned().unwrap_or("bss".into());
            let bin = matches!(kind.as_str(), "bdd" | "zdd" | "bss");
            let mut e = 0u64;
            let mut made = 0;
            while made < cfg.or("episodes", 10) {
                e += 1;
                let mut rng = Rng(seed.wrapping_mul(1_000_003).wrapping_add(e * 7919 + 17));
                for _ in 0..5 {
                    rng.next();
                }
                let capped = rng.chance(cfg.or("cap", 50) as usize);
                let p = 2 + rng.below(cfg.or("classes", 5) as usize);
                let (m, c) = if capped { (0, p - 1) } else { (p, 0) };
                let ne = rng.below(cfg.or("maxexp", 2) as usize + 1);
                let ar: Vec<usize> = (0..ne).map(|_| if bin { 2 } else { 2 + rng.below(2) }).collect();
                let top = cfg.or("maxhid", 40) as usize;
                let tall = cfg.get("tall") > 0;
                let nh = if tall {
                    240 + rng.below(80)
                } else if rng.chance(40) { 5 + rng.below(6) } else { 10 + rng.below(top.max(11) - 10) };
                let mut k = vec![];
                let mut w = vec![];
                let mut bits = ne as f64 * 1.6;
                while k.len() < nh {
                    let x = if bin { 2 } else { *rng.pick(&[2usize, 2, 3, 4]) };
                    bits += (x as f64).log2();
                    if bits > 58.0 && !tall {
                        break;
                    }
                    k.push(x);
                    w.push(if rng.chance(12) {
                        0
                    } else if rng.chance(60) {
                        1
                    } else {
                        rng.below(p.max(3)) + 1
                    });
                }
                let mut hid = Hid {
                    names: (0..k.len()).map(|j| format!("h{}", j + 1)).collect(),
                    k,
                    w,
                    m,
                    c,
                    reps: vec![],
                };
                if !hid.sample(&mut rng, 6) {
                    continue;
                }
                made += 1;
                let names = episode::names_for(&mut rng, ne);
                let sd = rng.next();
                let mut cx = Ctx::new_sum(&kind, ar, names, hid, sd, 1, &mut out, &cfg);
                cx.run();
            }
        }
        "huge" => {
            let kind = s.get("kind").cloned().unwrap_or("bss".into());
            for e in 0..cfg.or("episodes", 1) as u64 {
                huge::run(&kind, seed * 50 + e, cfg.or("m", 1000) as usize, cfg.or("vars", 64) as usize, &mut out, &cfg);
            }
        }
        // expressions over undeclared variables at a low automatic threshold
        "fresh" => {
            let kind = s.get("kind").cloned().unwrap_or("bss".into());
            for e in 0..cfg.or("episodes", 20) as u64 {
                let mut rng = Rng(seed.wrapping_mul(1_000_003).wrapping_add(e * 7919 + 23));
                for _ in 0..5 {
                    rng.next();
                }
                let nv = 5 + rng.below(4);
                let ar: Vec<usize> = if kind == "bss" { vec![2; nv] } else { (0..nv.min(6)).map(|_| if rng.chance(80) { 2 } else { 3 }).collect() };
                let names = episode::names_for(&mut rng, ar.len());
                let sd = rng.next();
                let mut cx = gen::Ctx::new(&kind, ar, names, None, sd, 1, &mut out, &cfg);
                cx.reset();
                cx.fresh_rpn();
                if !cx.dead {
                    cx.do_chk(true, &["C15"]);
                }
                for _ in 0..2 {
                    if !cx.dead {
                        cx.fresh_rpn();
                    }
                }
                if !cx.dead {
                    cx.do_chk(true, &["C15"]);
                }
            }
        }
        // node stores of more than a million nodes
        "mass" => {
            let kind = s.get("kind").cloned().unwrap_or("bdd".into());
            for e in 0..cfg.or("episodes", 1) as u64 {
                mass::run(&kind, seed * 50 + e, cfg.or("n", 1_100_000) as usize, &mut out, &cfg);
            }
        }
        "exh" => {
            let kind = s.get("kind").cloned().unwrap_or("bdd".into());
            let what = s.get("what").cloned().unwrap_or("rows".into());
            let list = |k: &str, d: &str| -> Vec<i64> {
                s.get(k).map(|x| x.as_str()).unwrap_or(d).split(',').map(|x| if x == "U" { sys::UNDET } else { x.parse().unwrap() }).collect()
            };
            let ar: Vec<usize> = list("ar", "2,2").iter().map(|&x| x as usize).collect();
            let mut vals: HashMap<sys::F, Vec<i64>> = HashMap::new();
            let want = s.get("forest").cloned().unwrap_or(match kind.as_str() {
                "bdd" | "bss" | "mdd" => "b",
                "zdd" | "zw" => "z",
                "mtmdd" => "v",
                "zmdd" => "y",
                _ => "bv",
            }.into());
            for f in want.chars() {
                match f {
                    'b' => vals.insert(sys::F::B, list("b", "0,1")),
                    'z' => vals.insert(sys::F::Z, vec![0, 1]),
                    'v' => vals.insert(sys::F::V, list("v", "0,1,2")),
                    _ => vals.insert(sys::F::Y, list("y", "U,1,2")),
                };
            }
            for e in 0..cfg.or("episodes", 1) as u64 {
                let mut rng = Rng((seed + e * 131).wrapping_mul(1_000_003) + 7);
                for _ in 0..5 {
                    rng.next();
                }
                let names = episode::names_for(&mut rng, ar.len());
                let sd = rng.next();
                exh::run(&kind, &what, &ar, &vals, names, sd, &mut out, &cfg);
            }
        }
        "script" => {
            let kind = s.get("kind").cloned().unwrap_or("bdd".into());
            let want = s.get("forest").cloned().unwrap_or("".into());
            let text = std::fs::read_to_string(&s["file"]).unwrap();
            let lines: Vec<&str> = text.lines().collect();
            let ar: Vec<usize> = s["ar"].split(',').map(|x| x.parse().unwrap()).collect();
            let ops: Vec<String> = s["ops"].split(',').map(|x| x.to_string()).collect();
            let mut rng = Rng(seed.wrapping_mul(1_000_003) + 5);
            for _ in 0..5 {
                rng.next();
            }
            // a window of a seeded permutation of the schedules
            let mut idx: Vec<usize> = (0..lines.len()).collect();
            let mut pr = Rng(cfg.or("perm", 1) as u64 * 77_777 + 1);
            pr.shuffle(&mut idx);
            let (from, count) = (cfg.get("from") as usize, cfg.or("count", 200) as usize);
            for q in from..from + count {
                if q >= idx.len() {
                    break;
                }
                let names = episode::names_for(&mut rng, ar.len());
                let sd = rng.next();
                script::run(&kind, &want, lines[idx[q]], &ar, &ops, names, sd, &mut out, &cfg);
            }
        }
        "cache" => {
            for e in 0..cfg.or("episodes", 3) as u64 {
                cachew::run(&mut out, seed * 100 + e, cfg.or("rounds", 14) as usize, cfg.get("big") > 0 && e % 2 == 1);
            }
        }
        x => panic!("{}", x),
    }
    out.intent(&[], "done");
    out.flush();
    println!("{} {}", out.lines, out.bytes);
}
