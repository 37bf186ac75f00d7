mod args;
mod clean;
mod cliruns;
mod compare;
mod faults;
mod fuzz;
mod gen;
mod geom;
mod json;
mod judge;
mod mon;
mod mon2;
mod mon3;
mod mon4;
mod opts;
mod props;
mod run;
mod rng;
mod scene;
mod showcase;
mod shrink;
mod style;
mod tame;
mod xml;
mod profiles;

use rng::Rng;

fn arg(a: &[String], k: &str) -> Option<String> { a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned()) }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let t = std::thread::Builder::new().stack_size(256 << 20).spawn(move || real(a)).unwrap();
    let code = t.join().unwrap_or(101);
    std::process::exit(code);
}

fn real(a: Vec<String>) -> i32 {
    clean::install_hook();
    match a.get(1).map(|s| s.as_str()) {
        Some("learn") => { learn(&a); 0 }
        Some("dev") => {
            let prof = arg(&a, "--prof").unwrap_or("shapes".into());
            let seed: u64 = arg(&a, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
            let n: u64 = arg(&a, "--n").and_then(|s| s.parse().ok()).unwrap_or(200);
            let start: u64 = arg(&a, "--start").and_then(|s| s.parse().ok()).unwrap_or(0);
            let max: usize = arg(&a, "--max").and_then(|s| s.parse().ok()).unwrap_or(3);
            let extra: Vec<String> = arg(&a, "--args").map(|s| s.split_whitespace().map(|x| x.to_string()).collect()).unwrap_or_default();
            dev(prof, seed, start, n, max, extra, arg(&a, "--kind").unwrap_or("default".into()));
            0
        }
        Some("cmp") => {
            let x = std::fs::read_to_string(&a[2]).unwrap();
            let y = std::fs::read_to_string(&a[3]).unwrap();
            println!("{:?}", judge::same_picture(&x, &y, &Default::default(), 1));
            0
        }
        Some("gen") => {
            let i: u64 = a[4].parse().unwrap();
            let mut r = Rng::from(a[3].parse().unwrap(), &a[2], i);
            let p = profiles::get(&a[2], &mut r);
            let root = gen::G::new(&mut r, p).document();
            println!("{}", gen::serialize(&root, &mut r, true));
            0
        }
        Some("scan") => {
            let x = std::fs::read_to_string(&a[2]).unwrap();
            let y = std::fs::read_to_string(&a[3]).unwrap();
            let (px, py): (f64, f64) = (a[4].parse().unwrap(), a[5].parse().unwrap());
            let (dx, dy) = (xml::parse(&x).unwrap(), xml::parse(&y).unwrap());
            let (sx, sy) = (scene::build(&dx), scene::build(&dy));
            fn rec(it: &[scene::Item], p: (f64, f64), d: &xml::Doc) { for i in it { match i { scene::Item::G(g) => rec(&g.items, p, d), scene::Item::D(k) => {
                if let Some(inv) = &k.inv { let q = inv.ap(p); let f = k.flat.inside(q, k.evenodd); let h = k.runs.hit(q, &k.sg); if f || h { println!("   {} fill {} stroke {} w {} dash {:?}", d.svg(k.src), f, h, k.sg.width, k.sg.dash); } } }, _ => {} } } }
            println!("A"); rec(&sx.root.items, (px, py), &dx);
            println!("B"); rec(&sy.root.items, (px, py), &dy);
            for i in -15..=15 { let q = i as f64 * 0.004; 
                println!("{:+.3} x {:.3?} {:.3?}  y {:.3?} {:.3?}", q, scene::eval(&sx, (px + q, py)), scene::eval(&sy, (px + q, py)), scene::eval(&sx, (px, py + q)), scene::eval(&sy, (px, py + q))); }
            0
        }
        Some("clean") => {
            let x = std::fs::read_to_string(&a[2]).unwrap();
            match clean::clean(&x, &a[3..]) { clean::Out::Ok(s) => println!("{}", s), o => println!("{:?}", o) }
            0
        }
        Some("sweep") => run::sweep(a[2].parse().unwrap(), a.get(3).map_or(false, |x| x == "all")),
        Some("run") => run::parent(&a[2]),
        Some("run-child") => run::child(&a[2], &a[3]),
        Some("panics") => { // development aid: panic sites reached by hostile documents
            let n: u64 = a[2].parse().unwrap();
            let sd: u64 = a.get(3).and_then(|x| x.parse().ok()).unwrap_or(1);
            let m = std::sync::Mutex::new(std::collections::BTreeMap::<String, (u64, String, String)>::new());
            let next = std::sync::atomic::AtomicU64::new(0);
            std::thread::scope(|sc| for _ in 0..6 { let (m, next) = (&m, &next); std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(sc, move || loop {
                let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                if i >= n { break; }
                let mut r = Rng::from(sd, "panics", i);
                let c = fuzz::soup(&mut r);
                let f = format!("/tmp/pn/{:?}", std::thread::current().id());
                std::fs::write(&f, format!("{}\n{}", c.args.join(" "), c.doc)).ok();
                let t = std::time::Instant::now();
                let o = clean::clean(&c.doc, &c.args);
                let site = match o { clean::Out::Panic(p) => p, _ if t.elapsed().as_millis() > 3000 => format!("slow"), _ => continue };
                let mut g = m.lock().unwrap();
                let e = g.entry(site).or_insert((0, c.doc.clone(), c.args.join(" ")));
                e.0 += 1;
                if c.doc.len() < e.1.len() { e.1 = c.doc.clone(); e.2 = c.args.join(" "); }
            }).unwrap(); });
            for (k, mut v) in m.into_inner().unwrap() {
                let args: Vec<String> = v.2.split_whitespace().map(|x| x.to_string()).collect();
                if k != "slow" {
                    let mut test = |d: &str, a: &[String]| matches!(clean::clean(d, a), clean::Out::Panic(ref p) if *p == k);
                    if let Some(el) = shrink::from_xml(&v.1) { if test(&shrink::plain(&el), &args) {
                        let (d, a) = shrink::shrink(el, args, std::time::Duration::from_secs(4), &mut test);
                        v.1 = shrink::plain(&d); v.2 = a.join(" ");
                    } }
                }
                println!("{} {}\n{}\n{}\n", v.0, k, v.2, v.1);
            }
            0
        }
        Some("one") => run::one(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap()),
        Some("replay") => run::replay(&a[2]),
        Some("list") => { for p in props::ALL { println!("{}", p); } 0 }
        _ => { eprintln!("usage"); 2 }
    }
}

fn culprits(doc: &str, cfg: &judge::Cfg) -> String {
    let mut v = vec![];
    for (f, d) in clean::FLAGS {
        let mut c = cfg.clone();
        c.args.push(format!("--{}={}", f, if *d { "false" } else { "true" }));
        if !*d { continue; }
        if *f == "paths-to-relative" { for q in ["remove-unused-segments", "convert-segments"] { c.args.push(format!("--{}=false", q)); } }
        if !judge::render_case(doc, &c).0.failed() { v.push(*f); }
    }
    if v.len() > 15 { return "ANY".into(); }
    v.join(" ")
}

fn dev(prof: String, seed: u64, start: u64, n: u64, max: usize, extra: Vec<String>, kind: String) {
    use std::sync::{atomic::*, Mutex};
    let next = AtomicU64::new(start);
    let (pass, skip, fail, pts) = (AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0));
    let seen: Mutex<std::collections::HashMap<String, usize>> = Default::default();
    let outs: Mutex<Vec<(u64, String)>> = Default::default();
    let t0 = std::time::Instant::now();
    std::thread::scope(|s| {
        for _ in 0..8 {
            std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, || loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= start + n { break; }
                let mut r = Rng::from(seed, &prof, i);
                let p = profiles::get(&prof, &mut r);
                let root = gen::G::new(&mut r, p).document();
                let doc = gen::serialize(&root, &mut r, true);
                let mut ar = args::gen(&kind, &mut Rng::from(seed, "args", i));
                ar.extend(extra.iter().cloned());
                let cfg = judge::Cfg { args: ar, tol: Default::default(), seed: i, must_accept: true };
                let (v, _) = judge::render_case(&doc, &cfg);
                match v {
                    judge::V::Pass(s) => { pass.fetch_add(1, Ordering::SeqCst); pts.fetch_add(s.points, Ordering::SeqCst); }
                    judge::V::Skip(s) => { skip.fetch_add(1, Ordering::SeqCst); *seen.lock().unwrap().entry(format!("skip {}", s)).or_default() += 1; }
                    judge::V::Fail(k, m) => {
                        let f = fail.fetch_add(1, Ordering::SeqCst);
                        let cu = culprits(&doc, &cfg);
                        *seen.lock().unwrap().entry(format!("fail {} [{}]", k, cu)).or_default() += 1;
                        if f < max as u64 {
                            let k2 = k.clone();
                            let mut bad = |d: &str, ar: &[String]| {
                                let c = judge::Cfg { args: ar.to_vec(), ..cfg.clone() };
                                (0..25).any(|q| { let mut c = c.clone(); c.seed = c.seed.wrapping_add(q * 7919); matches!(judge::render_case(d, &c).0, judge::V::Fail(ref x, _) if *x == k2) })
                            };
                            let st = shrink::from_xml(&doc).unwrap_or(root);
                            let (el, ar) = shrink::shrink(st, cfg.args.clone(), std::time::Duration::from_secs(15), &mut bad);
                            let d = shrink::plain(&el);
                            let (v2, out) = judge::render_case(&d, &judge::Cfg { args: ar.clone(), ..cfg.clone() });
                            outs.lock().unwrap().push((i, format!("--- case {} {}: {}\n   args {:?} culprits: {}\n   IN  {}\n   OUT {}\n   {:?}", i, k, m, ar, culprits(&d, &cfg), d, out.unwrap_or_default(), if let judge::V::Fail(a, b) = v2 { format!("{}: {}", a, b) } else { "(flaky)".into() })));
                        }
                    }
                }
            }).unwrap();
        }
    });
    let mut o = outs.into_inner().unwrap();
    o.sort();
    for (_, s) in o { println!("{}", s); }
    println!("pass {:?} skip {:?} fail {:?} points {:?} in {:?}", pass, skip, fail, pts, t0.elapsed());
    let mut v: Vec<_> = seen.into_inner().unwrap().into_iter().collect();
    v.sort_by_key(|x| std::cmp::Reverse(x.1));
    for (k, c) in v.into_iter().take(25) { println!("  {} {}", c, k); }
}
fn learn(a: &[String]) {
    // learn FLAG: histogram of changes of a single option over all profiles
    let flag = a.get(2).cloned().unwrap_or_default();
    let n: u64 = arg(a, "--n").and_then(|s| s.parse().ok()).unwrap_or(300);
    let mut h: std::collections::BTreeMap<String, (u64, String)> = Default::default();
    for p in profiles::NAMES { for i in 0..n {
        let mut r = Rng::from(5, p, i);
        let pr = profiles::get(p, &mut r);
        let mut root = gen::G::new(&mut r, pr).document();
        mon2::with_ids(&mut root);
        let doc = gen::serialize(&root, &mut r, true);
        let base: Vec<String> = ["--no-defaults", "--join-style-attributes=no", "--indent=none"].iter().map(|s| s.to_string()).collect();
        let mut args = base.clone();
        if flag != "none" { for f in flag.split(',') { args.push(format!("--{}=true", f)); } }
        let (x, y) = if flag == "none" { (clean::Out::Ok(doc.clone()), clean::clean(&doc, &base)) } else { (clean::clean(&doc, &base), clean::clean(&doc, &args)) };
        if let (clean::Out::Ok(x), clean::Out::Ok(y)) = (x, y) {
            if let (Ok(x), Ok(y)) = (xml::parse(&x), xml::parse(&y)) {
                for (k, v) in mon2::changes(&x, &y) { let e = h.entry(format!("{} {} {}", k.kind, k.tag, k.name)).or_insert((0, format!("{} {}#{}", v, p, i))); e.0 += 1; }
            }
        }
    } }
    for (k, v) in h { println!("{:6} {}   [{}]", v.0, k, v.1.chars().take(90).collect::<String>()); }
}
