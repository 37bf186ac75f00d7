//! Check driver: a supervising parent, an exploring child, single-case runs and replays.
use std::collections::{BTreeMap, HashMap, HashSet};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use crate::clean::{clean, Out};
use crate::json::{obj, J};
use crate::mon::{self, bump, Case, Ev, R};
use crate::props::{self, Prop, Stream};
use crate::{shrink, xml};

pub const VERIF: &str = "/verif";

pub fn seed() -> u64 { std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1) }
pub fn threads() -> usize { std::env::var("SVGMON_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get()).min(16)) }
pub fn thorough() -> bool { std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough") }

fn out_dir(id: &str) -> PathBuf { let d = Path::new(VERIF).join("out").join(id); std::fs::create_dir_all(&d).ok(); d }

/// Runs all monitors of a stream on one case.
pub fn judge_case(st: &Stream, c: &Case, ev: &mut Ev) -> (R, String, Option<String>) {
    let cli = st.mons.iter().all(|m| m.starts_with("cli"));
    let o = if cli { Out::Ok(String::new()) } else { clean(&c.doc, &c.args) };
    let mut skip = None;
    let mut any = false;
    for m in st.mons {
        match mon::run(m, c, &o, ev) {
            R::Ok => any = true,
            R::Skip(s) => skip = Some((R::Skip(s), m.to_string())),
            f => return (f, m.to_string(), if let Out::Ok(s) = o { Some(s) } else { None }),
        }
    }
    let out = if let Out::Ok(s) = o { Some(s) } else { None };
    if any { (R::Ok, String::new(), out) } else { let (r, m) = skip.unwrap(); (r, m, out) }
}

/// Does the failure `kind` of monitor `m` show up again with other probe seeds?
fn confirmed(m: &str, c: &Case, kind: &str, need: usize) -> bool {
    if m.starts_with("cli") && !kind.starts_with("multipass") { return mon::run(m, c, &Out::Ok(String::new()), &mut Ev::new()).kind() == Some(kind); }
    let o = clean(&c.doc, &c.args);
    let mut hits = 0;
    for q in 0..25u64 {
        let mut c2 = c.clone();
        c2.seed = c.seed.wrapping_add(q.wrapping_mul(7919));
        if mon::run(m, &c2, &o, &mut Ev::new()).kind() == Some(kind) { hits += 1; if hits >= need { return true; } }
        // deterministic monitors need no more than two looks
        if !matches!(kind, "picture" | "second-pass picture" | "multipass picture") && q >= need as u64 { break; }
    }
    false
}

struct Failure { stream: String, idx: u64, mon: String, kind: String, msg: String, case: Case, out: String, shrunk: bool }

fn replay_file(id: &str, name: &str, f: &Failure) -> PathBuf {
    let p = out_dir(id).join(format!("{}.json", name));
    let j = obj(vec![
        ("property", J::s(id)), ("stream", J::s(&*f.stream)), ("index", J::n(f.idx)), ("verif_seed", J::n(seed())), ("monitor", J::s(&*f.mon)), ("failure", J::s(&*f.kind)),
        ("message", J::s(&*f.msg)), ("document", J::s(&*f.case.doc)), ("args", J::A(f.case.args.iter().map(|a| J::s(&**a)).collect())),
        ("probe_seed", J::s(f.case.seed.to_string())), ("accept", J::B(f.case.accept)), ("output", J::s(&*f.out)), ("shrunk", J::B(f.shrunk)),
        ("how", J::s(format!("{}/check.sh replay {}", VERIF, p.display()))),
    ]);
    std::fs::write(&p, j.dump() + "\n").ok();
    p
}

fn schedule(p: &Prop) -> Vec<(usize, u64)> {
    let k = if thorough() { 25 } else { 1 };
    let mut v = vec![];
    let only = std::env::var("SVGMON_STREAM").ok(); // one stream, for development
    for (i, s) in p.streams.iter().enumerate() {
        if only.as_ref().map_or(false, |o| !s.name.contains(o.as_str())) { continue; }
        let n = s.n * k;
        for j in 0..n { v.push(((j as f64 + 0.5) / n as f64, i, j)); }
    }
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    v.into_iter().map(|x| (x.1, x.2)).collect()
}

#[derive(Default)]
struct Tally { evals: u64, pass: u64, skips: BTreeMap<String, u64>, ev: Ev, effects: HashMap<u64, u64>, cases: HashSet<u64>, nontrivial: HashSet<u64>, per: BTreeMap<String, u64>, names: HashMap<String, u64>, unconfirmed: u64, samples: Vec<J>, bytes_in: u64, bytes_out: u64 }

pub fn child(id: &str, dir: &str) -> i32 {
    let prop = match props::get(id) { Some(p) => p, None => { eprintln!("unknown property {}", id); return 2; } };
    let skip: HashSet<(usize, u64)> = std::env::var("SVGMON_SKIP").unwrap_or_default().split(',').filter_map(|x| { let (a, b) = x.split_once(':')?; Some((a.parse().ok()?, b.parse().ok()?)) }).collect();
    let sched = schedule(&prop);
    let sd = seed();
    let cap = Duration::from_secs(if thorough() { 780 } else { 200 });
    let t0 = Instant::now();
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let done = AtomicBool::new(false);
    let nw = threads();
    let busy: Vec<AtomicU64> = (0..nw).map(|_| AtomicU64::new(0)).collect();
    let cur: Vec<Mutex<(usize, u64)>> = (0..nw).map(|_| Mutex::new((0, 0))).collect();
    let fails: Mutex<Vec<Failure>> = Mutex::new(vec![]);
    let total: Mutex<Tally> = Mutex::new(Tally::default());
    let workers = AtomicUsize::new(nw);
    std::thread::scope(|sc| {
        // watchdog: a case that does not come back
        sc.spawn(|| {
            while !done.load(Ordering::SeqCst) {
                std::thread::sleep(Duration::from_millis(100));
                let now = t0.elapsed().as_millis() as u64;
                for w in 0..nw {
                    let b = busy[w].load(Ordering::SeqCst);
                    if b > 0 && now > b + 60_000 {
                        let (s, i) = *cur[w].lock().unwrap();
                        std::fs::write(Path::new(dir).join("hang"), format!("{}:{}", s, i)).ok();
                        std::process::exit(77);
                    }
                }
            }
        });
        for w in 0..nw {
            let (prop, sched, next, stop, busy, cur, fails, total, skip, done, workers) = (&prop, &sched, &next, &stop, &busy, &cur, &fails, &total, &skip, &done, &workers);
            std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(sc, move || {
                use std::os::unix::fs::FileExt;
                let slot = std::fs::File::create(Path::new(dir).join(format!("slot-{}", w))).unwrap();
                let mut t = Tally::default();
                loop {
                    if stop.load(Ordering::SeqCst) || t0.elapsed() > cap { break; }
                    let k = next.fetch_add(1, Ordering::SeqCst);
                    if k >= sched.len() { break; }
                    let (si, idx) = sched[k];
                    if skip.contains(&(si, idx)) { continue; }
                    let st = &prop.streams[si];
                    slot.write_all_at(format!("{:>4}:{:<12}", si, idx).as_bytes(), 0).ok();
                    *cur[w].lock().unwrap() = (si, idx);
                    busy[w].store(t0.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
                    let c = props::make(st, sd, idx);
                    let mut ev = Ev::new();
                    let (r, m, out) = judge_case(st, &c, &mut ev);
                    busy[w].store(0, Ordering::SeqCst);
                    t.evals += 1;
                    *t.per.entry(st.name.clone()).or_default() += 1;
                    let h = mon::hash(&format!("{}\u{1}{}", c.doc, c.args.join(" ")));
                    t.cases.insert(h);
                    match r {
                        R::Ok => {
                            t.pass += 1;
                            let observed: u64 = ev.iter().filter(|x| !x.0.ends_with("points_probed")).map(|x| *x.1).sum();
                            for (k, v) in &ev { bump(&mut t.ev, k, *v); }
                            let mut changed = c.doc.is_empty() || st.mons.iter().any(|m| m.starts_with("cli") || *m == "refusal");
                            if let Some(o) = &out {
                                t.bytes_in += c.doc.len() as u64;
                                t.bytes_out += o.len() as u64;
                                if *o != c.doc { changed = true; }
                                if idx % 4 == 0 {
                                    if let (Ok(a), Ok(b)) = (xml::parse(&c.doc), xml::parse(o)) {
                                        let (eh, v) = mon::effect(&a, &b);
                                        *t.effects.entry(eh).or_default() += 1;
                                        for x in v { *t.names.entry(x).or_default() += 1; }
                                    }
                                }
                            }
                            if observed > 0 && changed { t.nontrivial.insert(h); }
                            if t.samples.is_empty() && idx > 3 && c.doc.len() < 1500 {
                                t.samples.push(obj(vec![("stream", J::s(&*st.name)), ("index", J::n(idx)), ("args", J::s(c.args.join(" "))), ("document", J::s(&*c.doc)), ("output", J::s(out.clone().unwrap_or_default())),
                                    ("events", J::O(ev.iter().map(|(k, v)| (k.clone(), J::n(*v))).collect()))]));
                            }
                        }
                        R::Skip(s) => { *t.skips.entry(mon::trunc(&s, 70)).or_default() += 1; }
                        R::Fail(kind, msg) => {
                            if stop.load(Ordering::SeqCst) { break; }
                            if !confirmed(&m, &c, &kind, 2) { t.unconfirmed += 1; continue; }
                            let mut f = Failure { stream: st.name.clone(), idx, mon: m.clone(), kind: kind.clone(), msg, case: c.clone(), out: out.unwrap_or_default(), shrunk: false };
                            {
                                let l = fails.lock().unwrap();
                                if l.len() >= 3 { stop.store(true, Ordering::SeqCst); break; }
                            }
                            if !m.starts_with("cli") {
                                if let Some(el) = shrink::from_xml(&c.doc) {
                                    let mut bad = |d: &str, a: &[String]| {
                                        let c2 = Case { doc: d.to_string(), args: a.to_vec(), ..c.clone() };
                                        confirmed(&m, &c2, &kind, 1)
                                    };
                                    let (el, ar) = shrink::shrink(el, c.args.clone(), Duration::from_secs(8), &mut bad);
                                    let d = shrink::plain(&el);
                                    let c2 = Case { doc: d, args: ar, ..c.clone() };
                                    for q in 0..25u64 {
                                        let mut c3 = c2.clone();
                                        c3.seed = c.seed.wrapping_add(q.wrapping_mul(7919));
                                        let o = clean(&c3.doc, &c3.args);
                                        if let R::Fail(k, ms) = mon::run(&m, &c3, &o, &mut Ev::new()) {
                                            if k == kind { f.msg = format!("{}  [before shrinking: {}]", ms, f.msg.chars().take(200).collect::<String>()); f.out = if let Out::Ok(s) = o { s } else { String::new() }; f.case = c3; f.shrunk = true; break; }
                                        }
                                    }
                                }
                            }
                            let mut l = fails.lock().unwrap();
                            l.push(f);
                            if l.len() >= 3 { stop.store(true, Ordering::SeqCst); }
                        }
                    }
                    // one failure found a while ago: do not explore to the end
                    if !stop.load(Ordering::SeqCst) && k % 64 == 0 && !fails.lock().unwrap().is_empty() && t0.elapsed() > Duration::from_secs(25) { stop.store(true, Ordering::SeqCst); }
                }
                let mut g = total.lock().unwrap();
                g.evals += t.evals; g.pass += t.pass; g.unconfirmed += t.unconfirmed; g.bytes_in += t.bytes_in; g.bytes_out += t.bytes_out;
                for (k, v) in t.skips { *g.skips.entry(k).or_default() += v; }
                for (k, v) in t.ev { *g.ev.entry(k).or_default() += v; }
                for (k, v) in t.effects { *g.effects.entry(k).or_default() += v; }
                for (k, v) in t.names { *g.names.entry(k).or_default() += v; }
                for (k, v) in t.per { *g.per.entry(k).or_default() += v; }
                g.cases.extend(t.cases);
                g.nontrivial.extend(t.nontrivial);
                g.samples.extend(t.samples);
                if workers.fetch_sub(1, Ordering::SeqCst) == 1 { done.store(true, Ordering::SeqCst); }
            }).unwrap();
        }
    });
    let t = total.into_inner().unwrap();
    let fails = fails.into_inner().unwrap();
    let mut lines = String::new();
    for (i, f) in fails.iter().enumerate() {
        let p = replay_file(id, &format!("violation-{}", i + 1), f);
        lines.push_str(&format!("  {} in {}#{} [{}]: {}\n", f.kind, f.stream, f.idx, f.mon, mon::trunc(&f.msg, 300)));
        lines.push_str(&format!("    args {:?}\n    in  {}\n    out {}\n", f.case.args, mon::trunc(&f.case.doc, 700), mon::trunc(&f.out, 700)));
        lines.push_str(&format!("VIOLATION property={} replay={}\n", id, p.display()));
    }
    print!("{}", lines);
    let (kn_lines, kn_ok, kn_seen) = known(id, &prop);
    print!("{}", kn_lines);
    let mut names: Vec<_> = t.names.iter().collect();
    names.sort_by_key(|x| (std::cmp::Reverse(*x.1), x.0.clone()));
    let complete = next.load(Ordering::SeqCst) >= sched.len();
    let cov = obj(vec![
        ("evaluations", J::n(t.evals)),
        ("distinct_nontrivial", J::n(t.nontrivial.len() as u64)),
        ("rule", J::s(prop.rule)),
        ("samples", J::A(t.samples.into_iter().take(3).collect())),
        ("distinct_cases", J::n(t.cases.len() as u64)),
        ("held", J::n(t.pass)),
        ("inconclusive", J::O(t.skips.iter().map(|(k, v)| (k.clone(), J::n(*v))).collect())),
        ("unconfirmed_single_probe_mismatches", J::n(t.unconfirmed)),
        ("monitor_events", J::O(t.ev.iter().map(|(k, v)| (k.clone(), J::n(*v))).collect())),
        ("cases_per_stream", J::O(t.per.iter().map(|(k, v)| (k.clone(), J::n(*v))).collect())),
        ("distinct_cleaning_effects", J::n(t.effects.len() as u64)),
        ("frequent_effects", J::O(names.iter().take(40).map(|(k, v)| ((*k).clone(), J::n(**v))).collect())),
        ("bytes_in", J::n(t.bytes_in)),
        ("bytes_out", J::n(t.bytes_out)),
        ("schedule_completed", J::B(complete)),
        ("known_findings_reproduced", J::n(kn_seen)),
    ]);
    write_evidence(id, cov, t0.elapsed().as_secs_f64(), fails.len() as u64 + (!kn_ok) as u64);
    if !fails.is_empty() { return 1; }
    if t.pass == 0 || t.nontrivial.is_empty() { eprintln!("{}: nothing was observed: inconclusive", id); return 3; }
    println!("{}: held on {} executions ({} non-trivial, {} inconclusive) in {:.1} s", id, t.pass, t.nontrivial.len(), t.skips.values().sum::<u64>(), t0.elapsed().as_secs_f64());
    0
}

pub fn write_evidence(id: &str, cov: J, wall: f64, violations: u64) {
    let d = Path::new(VERIF).join("evidence");
    std::fs::create_dir_all(&d).ok();
    let j = obj(vec![
        ("property", J::s(id)), ("tier", J::s(if thorough() { "thorough" } else { "quick" })), ("seed", J::n(seed())), ("level", J::s("exploration")), ("coverage", cov),
        ("assumptions", J::A(vec![J::s("the oracle implements the static SVG 1.1 rendering model independently of the cleaner; font metrics, raster details and filter arithmetic are compared structurally"),
            J::s("held on the executions counted here; documents outside the generators' reach are not covered")])),
        ("wall_s", J::N((wall * 100.0).round() / 100.0)), ("violations", J::n(violations)),
    ]);
    std::fs::write(d.join(format!("{}.json", id)), j.dump() + "\n").ok();
}

/// Re-executes the recorded findings of this property.
fn known(id: &str, prop: &Prop) -> (String, bool, u64) {
    let _ = prop;
    let f = std::fs::read_to_string(Path::new(VERIF).join("known-findings.txt")).unwrap_or_default();
    let mut out = String::new();
    let mut n = 0;
    for l in f.lines() {
        let l = match l.strip_prefix("known: ") { Some(l) => l, None => continue };
        let (head, what) = match l.split_once(" :: ") { Some(x) => x, None => continue };
        let kv: HashMap<&str, &str> = head.split_whitespace().filter_map(|x| x.split_once('=')).collect();
        if kv.get("property") != Some(&id) { continue; }
        let doc = match std::fs::read_to_string(Path::new(VERIF).join(kv.get("file").unwrap_or(&""))) { Ok(d) => d, Err(_) => continue };
        let args: Vec<String> = kv.get("args").map(|a| a.split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect()).unwrap_or_default();
        let c = Case { doc, args, seed: 1, accept: true };
        let o = if kv.contains_key("site") { Out::Ok(String::new()) } else { clean(&c.doc, &c.args) };
        crate::cliruns::REPRODUCING.with(|r| r.set(true));
        let m = kv.get("monitor").unwrap_or(&"picture");
        let kind = kv.get("failure").unwrap_or(&"picture");
        let tries = if kv.contains_key("site") { 1 } else { 25u64 };
        let hit = (0..tries).any(|q| { let mut c2 = c.clone(); c2.seed = 1 + q; mon::run(m, &c2, &o, &mut Ev::new()).kind() == Some(kind) });
        crate::cliruns::REPRODUCING.with(|r| r.set(false));
        if hit { n += 1; out.push_str(&format!("KNOWN-FINDING: property={} {} {}\n", id, kv.get("id").unwrap_or(&""), what)); }
    }
    (out, true, n)
}

fn exe() -> PathBuf { std::env::current_exe().unwrap() }

fn spawn(limits: &str, args: &[&str], envs: &[(&str, String)], capture: bool) -> (Option<i32>, String) {
    let mut c = Command::new("bash");
    c.arg("-c").arg(format!("{}; exec \"$0\" \"$@\"", limits)).arg(exe());
    for a in args { c.arg(a); }
    for (k, v) in envs { c.env(k, v); }
    if capture { c.stdout(Stdio::piped()).stderr(Stdio::null()); }
    let ch = match c.spawn() { Ok(c) => c, Err(e) => { eprintln!("spawn: {}", e); return (Some(2), String::new()); } };
    match ch.wait_with_output() {
        Ok(o) => (o.status.code(), String::from_utf8_lossy(&o.stdout).into_owned()),
        Err(_) => (Some(2), String::new()),
    }
}

pub fn parent(id: &str) -> i32 {
    let t0 = Instant::now();
    let dir = out_dir(id).join("run");
    let mut skips: Vec<String> = vec![];
    for f in std::fs::read_dir(out_dir(id)).into_iter().flatten().flatten() {
        if f.file_name().to_string_lossy().starts_with("violation-") { std::fs::remove_file(f.path()).ok(); }
    }
    for _ in 0..6 {
        std::fs::remove_dir_all(&dir).ok();
        std::fs::create_dir_all(&dir).unwrap();
        let (code, _) = spawn("ulimit -c 0; ulimit -v 24000000", &["run-child", id, dir.to_str().unwrap()], &[("SVGMON_SKIP", skips.join(",")), ("SVGMON_WORK", dir.to_string_lossy().into_owned())], false);
        match code {
            Some(0) | Some(1) | Some(2) | Some(3) => return code.unwrap(),
            _ => {}
        }
        // the child died: find out which case did it
        let mut cand: Vec<String> = vec![];
        if let Ok(h) = std::fs::read_to_string(dir.join("hang")) { cand.push(h.trim().to_string()); }
        else {
            for f in std::fs::read_dir(&dir).into_iter().flatten().flatten() {
                if f.file_name().to_string_lossy().starts_with("slot-") {
                    if let Ok(s) = std::fs::read_to_string(f.path()) { let s: String = s.split_whitespace().collect(); if s.contains(':') { cand.push(s); } }
                }
            }
        }
        eprintln!("{}: the exploring process ended abnormally ({:?}); looking at {} cases", id, code, cand.len());
        let mut bad = 0;
        for c in &cand {
            let (si, idx) = match c.split_once(':') { Some(x) => x, None => continue };
            let (code, out) = spawn("ulimit -c 0; ulimit -v 8000000; ulimit -t 100", &["one", id, si, idx], &[], true);
            if matches!(code, Some(0)) { continue; }
            skips.push(c.clone());
            if out.contains("PHASE done") { continue; }
            // died inside the cleaner
            bad += 1;
            let prop = props::get(id).unwrap();
            let st = &prop.streams[si.parse::<usize>().unwrap_or(0)];
            let case = props::make(st, seed(), idx.parse().unwrap_or(0));
            let f = Failure { stream: st.name.clone(), idx: idx.parse().unwrap_or(0), mon: "termination".into(), kind: "crash-or-hang".into(), msg: format!("cleaning ended with {:?} (crash, out of memory or more than 100 s of CPU time)", code), case, out: String::new(), shrunk: false };
            let p = replay_file(id, &format!("violation-{}", bad), &f);
            println!("  {}: {} {}#{} args {:?}", id, f.msg, f.stream, f.idx, f.case.args);
            println!("VIOLATION property={} replay={}", id, p.display());
            if bad >= 2 { break; }
        }
        if bad > 0 {
            write_evidence(id, obj(vec![("evaluations", J::n(cand.len() as u64)), ("distinct_nontrivial", J::n(bad)), ("rule", J::s("the exploring process died; the cases in flight were re-run one by one")), ("samples", J::A(cand.iter().map(|c| J::s(&**c)).collect()))]), t0.elapsed().as_secs_f64(), bad);
            return 1;
        }
    }
    eprintln!("{}: inconclusive", id);
    3
}

pub fn one(id: &str, si: usize, idx: u64) -> i32 {
    let prop = match props::get(id) { Some(p) => p, None => return 2 };
    let st = &prop.streams[si];
    let c = props::make(st, seed(), idx);
    println!("PHASE clean");
    std::io::stdout().flush().ok();
    if !st.mons.iter().all(|m| m.starts_with("cli")) { let _ = clean(&c.doc, &c.args); }
    println!("PHASE done");
    std::io::stdout().flush().ok();
    let (r, m, _) = judge_case(st, &c, &mut Ev::new());
    println!("{} {:?}", m, r);
    0
}

pub fn replay(file: &str) -> i32 {
    let j = match std::fs::read_to_string(file).ok().and_then(|s| J::parse(&s)) { Some(j) => j, None => { eprintln!("cannot read {}", file); return 2; } };
    let g = |k: &str| j.get(k).and_then(|x| x.str()).unwrap_or("").to_string();
    let args: Vec<String> = if let Some(J::A(v)) = j.get("args") { v.iter().filter_map(|x| x.str().map(|s| s.to_string())).collect() } else { vec![] };
    let c = Case { doc: g("document"), args, seed: g("probe_seed").parse().unwrap_or(1), accept: j.get("accept") != Some(&J::B(false)) };
    let m = g("monitor");
    println!("args {:?}\nin  {}", c.args, c.doc);
    if m == "termination" {
        let prop = props::get(&g("property")).unwrap();
        println!("re-running {} #{:?}", g("stream"), j.get("index"));
        let _ = prop;
        let o = clean(&c.doc, &c.args);
        println!("{:?}", o);
        return 0;
    }
    let o = if m.starts_with("cli") { Out::Ok(String::new()) } else { clean(&c.doc, &c.args) };
    println!("out {:?}", o);
    let r = mon::run(&m, &c, &o, &mut Ev::new());
    println!("{} -> {:?}", m, r);
    if matches!(r, R::Fail(..)) { println!("VIOLATION property={} replay={}", g("property"), file); 1 } else { 0 }
}

/// Development aid for mutation sweeps: a part of every property's cases, the first confirmed failure of each.
pub fn sweep(frac: f64, all: bool) -> i32 {
    let mut hit = vec![];
    for id in props::ALL {
        let prop = props::get(id).unwrap();
        if prop.streams.iter().any(|s| s.mons.iter().any(|m| m.starts_with("cli"))) { continue; }
        let sched: Vec<(usize, u64)> = schedule(&prop).into_iter().filter(|x| (x.1 as f64) < prop.streams[x.0].n as f64 * frac).collect();
        let next = AtomicUsize::new(0);
        let found: Mutex<Option<String>> = Mutex::new(None);
        let t0 = Instant::now();
        let cur: Vec<AtomicU64> = (0..threads()).map(|_| AtomicU64::new(0)).collect();
        std::thread::scope(|sc| {
            let (sched, next, found, prop, cur, t0) = (&sched, &next, &found, &prop, &cur, &t0);
            let live = AtomicUsize::new(threads());
            let live = &*Box::leak(Box::new(live));
            sc.spawn(move || loop {
                if live.load(Ordering::SeqCst) == 0 { break; }
                std::thread::sleep(Duration::from_millis(20));
                let now = t0.elapsed().as_millis() as u64;
                if cur.iter().any(|c| { let c = c.load(Ordering::SeqCst); c > 0 && now > c + 20000 }) { println!("{} hang", id); std::process::exit(0); }
            });
            for w in 0..threads() {
                std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(sc, move || {
                    loop {
                        if found.lock().unwrap().is_some() { break; }
                        let k = next.fetch_add(1, Ordering::SeqCst);
                        if k >= sched.len() { break; }
                        let (si, idx) = sched[k];
                        let st = &prop.streams[si];
                        cur[w].store(t0.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
                        let c = props::make(st, seed(), idx);
                        let mut ev = Ev::new();
                        let (r, m, out) = judge_case(st, &c, &mut ev);
                        if let R::Fail(kind, msg) = r {
                            if confirmed(&m, &c, &kind, 2) { *found.lock().unwrap() = Some(format!("{} {}#{} {} {} | {:?} | {} | {}", m, st.name, idx, kind, mon::trunc(&msg, 200), c.args, c.doc, out.unwrap_or_default())); }
                        }
                        cur[w].store(0, Ordering::SeqCst);
                    }
                    live.fetch_sub(1, Ordering::SeqCst);
                }).unwrap();
            }
        });
        if let Some(f) = found.into_inner().unwrap() {
            println!("{} {:.1}s {}", id, t0.elapsed().as_secs_f64(), f);
            hit.push(*id);
            if !all { break; }
        }
    }
    println!("HIT {}", hit.join(" "));
    0
}
