//! Monitors that run the real program: files, standard streams, exit status, time.
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::os::unix::fs::MetadataExt;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

use crate::clean::{clean, Out, FLAGS};
use crate::compare::Tol;
use crate::judge::{self, V};
use crate::mon::{bump, fail, trunc, Case, Ev, R};
use crate::rng::Rng;

pub const BIN: &str = "/verif/target/repo/release/svgcleaner";

pub struct Done { pub code: Option<i32>, pub signal: Option<i32>, pub out: Vec<u8>, pub err: String, pub ms: u64, pub late: bool }
impl Done {
    pub fn crashed(&self) -> bool { self.signal.is_some() || self.late || self.err.contains("panicked at") || self.err.contains("stack overflow") }
    pub fn how(&self) -> String {
        if self.late { return format!("no end after {} ms", self.ms); }
        let site = self.err.lines().find(|l| l.contains("panicked at")).unwrap_or("");
        format!("exit {:?} signal {:?} {} {}", self.code, self.signal, site, trunc(self.err.lines().last().unwrap_or(""), 160))
    }
}

struct Dir(PathBuf);
impl Drop for Dir { fn drop(&mut self) { std::fs::remove_dir_all(&self.0).ok(); } }
thread_local! { static WORK: RefCell<Option<Dir>> = RefCell::new(None); }
static NEXT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

/// An empty scratch directory of this thread.
pub fn scratch() -> PathBuf {
    WORK.with(|w| {
        let mut w = w.borrow_mut();
        if w.is_none() {
            let base = std::env::var("SVGMON_WORK").unwrap_or_else(|_| format!("/tmp/svgmon-{}", std::process::id()));
            let p = Path::new(&base).join(format!("w{}-{}", std::process::id(), NEXT.fetch_add(1, std::sync::atomic::Ordering::SeqCst)));
            *w = Some(Dir(p));
        }
        let p = w.as_ref().unwrap().0.clone();
        std::fs::remove_dir_all(&p).ok();
        std::fs::create_dir_all(p.join("d")).unwrap();
        p
    })
}

pub fn exec(work: &Path, args: &[String], stdin: Option<&[u8]>, limit: Duration) -> Done {
    let (so, se, si) = (work.join("so"), work.join("se"), work.join("si"));
    let mut c = Command::new(BIN);
    c.args(args).current_dir(work.join("d")).env_remove("RUST_BACKTRACE").process_group(0);
    c.stdout(Stdio::from(std::fs::File::create(&so).unwrap())).stderr(Stdio::from(std::fs::File::create(&se).unwrap()));
    match stdin {
        Some(b) => { std::fs::write(&si, b).unwrap(); c.stdin(Stdio::from(std::fs::File::open(&si).unwrap())); }
        None => { c.stdin(Stdio::null()); }
    }
    let t0 = Instant::now();
    let mut ch = match c.spawn() { Ok(c) => c, Err(e) => panic!("cannot run {}: {}", BIN, e) };
    let mut late = false;
    let st = loop {
        match ch.try_wait() { Ok(Some(s)) => break s, Ok(None) => {}, Err(e) => panic!("wait: {}", e) }
        if t0.elapsed() > limit { late = true; ch.kill().ok(); break ch.wait().unwrap(); }
        std::thread::sleep(Duration::from_micros(if t0.elapsed() < Duration::from_millis(20) { 300 } else { 3000 }));
    };
    let out = std::fs::read(&so).unwrap_or_default();
    let err = String::from_utf8_lossy(&std::fs::read(&se).unwrap_or_default()).into_owned();
    Done { code: st.code(), signal: if late { None } else { st.signal() }, out, err, ms: t0.elapsed().as_millis() as u64, late }
}

/// A document is text; "\u{1}b:" starts a byte sequence written one byte per character.
pub fn bytes_of(doc: &str) -> Vec<u8> {
    match doc.strip_prefix("\u{1}b:") { Some(r) => r.chars().map(|c| c as u32 as u8).collect(), None => doc.as_bytes().to_vec() }
}
pub fn from_bytes(b: &[u8]) -> String {
    match std::str::from_utf8(b) { Ok(s) if !s.starts_with('\u{1}') => s.to_string(), _ => format!("\u{1}b:{}", b.iter().map(|x| *x as char).collect::<String>()) }
}

fn v(a: &[&str]) -> Vec<String> { a.iter().map(|s| s.to_string()).collect() }
const LIMIT: Duration = Duration::from_secs(30);

pub fn run(name: &str, c: &Case, ev: &mut Ev) -> R {
    match name {
        "cli-total" => total(c, ev),
        "cli-files" => files(c, ev),
        "cli-same" => same(c, ev),
        "cli-multipass" => multipass(c, ev),
        "cli-options" => options(c, ev),
        "cli-illegal" => illegal(c, ev),
        "cli-refusal" => crate::mon3::cli_refusal(c, ev),
        "cli-faults" => crate::faults::faults(c, ev),
        "cli-showcase" => crate::showcase::run(c, ev),
        _ => R::Skip(format!("unknown monitor {}", name)),
    }
}

// ---------------------------------------------------------------- C22

/// Every run ends by itself, without a panic or a signal, and leaves an output or a message.
fn total(c: &Case, ev: &mut Ev) -> R {
    let w = scratch();
    std::fs::write(w.join("d/in.svg"), bytes_of(&c.doc)).unwrap();
    let mut a = c.args.clone();
    a.extend(v(&["in.svg", "out.svg"]));
    // the work may grow with the square of the size
    let kb = c.doc.len() as f64 / 1024.0;
    let limit = LIMIT + Duration::from_millis((kb * kb * 2.0) as u64);
    let d = exec(&w, &a, None, limit);
    bump(ev, "total.runs", 1);
    if d.crashed() {
        let kind = if d.late { "hang" } else if d.err.contains("overflow") || d.signal.is_some() { "crash" } else { "panic" };
        if !REPRODUCING.with(|r| r.get()) { if let Some(id) = known_crash(&c.doc, &d.err) { bump(ev, &format!("total.known.{}", id), 1); return R::Skip(format!("known finding {}", id)); } }
        return fail(kind, d.how());
    }
    let made = w.join("d/out.svg").exists();
    if made { bump(ev, "total.outputs", 1); } else { bump(ev, "total.reported_errors", 1); }
    bump(ev, &format!("total.message.{}", d.err.lines().next().map(|l| l.split(|c: char| !c.is_ascii_alphabetic() && c != ' ').next().unwrap_or("").trim().chars().take(40).collect::<String>()).unwrap_or_default().replace(' ', "_")), 1);
    if !made && d.err.trim().is_empty() { return fail("silent", format!("no output and no message, {}", d.how())); }
    if made {
        let o = std::fs::read(w.join("d/out.svg")).unwrap();
        if o.is_empty() { return fail("empty", format!("an empty output, {}", trunc(&d.err, 100))); }
        if std::str::from_utf8(&o).is_err() { return fail("utf8", "the output is not valid UTF-8"); }
    }
    R::Ok
}

thread_local! { pub static REPRODUCING: std::cell::Cell<bool> = std::cell::Cell::new(false); }

/// A crash listed in known-findings.txt: by the place of the panic, and by what the document has to contain.
fn known_crash(doc: &str, err: &str) -> Option<String> {
    static LIST: std::sync::OnceLock<Vec<(String, String, String)>> = std::sync::OnceLock::new();
    let l = LIST.get_or_init(|| {
        let f = std::fs::read_to_string("/verif/known-findings.txt").unwrap_or_default();
        f.lines().filter_map(|l| {
            let (head, _) = l.strip_prefix("known: ")?.split_once(" :: ")?;
            let kv: BTreeMap<&str, &str> = head.split_whitespace().filter_map(|x| x.split_once('=')).collect();
            Some((kv.get("id")?.to_string(), kv.get("site")?.to_string(), kv.get("when").unwrap_or(&"any").to_string()))
        }).collect()
    });
    // the first panic; later ones come from destructors
    let at = err.lines().find(|x| x.contains("panicked at "))?;
    l.iter().find(|(_, site, when)| site.split('|').any(|x| at.contains(x)) && match when.as_str() { "style-child" => style_child(doc), _ => true }).map(|x| x.0.clone())
}

/// A `style` element with an element inside, or which can be linked itself.
fn style_child(doc: &str) -> bool {
    doc.match_indices("<style").any(|(k, _)| {
        let t = &doc[k..];
        let e = match t.find('>') { Some(e) => e, None => return false };
        if t[..e].contains("id=") || t[..e].contains("id =") || t[..e].contains("url(") || t[..e].contains("href") { return true; }
        if t[..e].ends_with('/') { return false; }
        let mut u = &t[e + 1..];
        while let Some(p) = u.find('<') {
            if u[p..].starts_with("<![CDATA[") { u = &u[p..][u[p..].find("]]>").map_or(u.len() - p, |q| q + 3)..]; continue; }
            if u[p..].starts_with("<!--") { u = &u[p..][u[p..].find("-->").map_or(u.len() - p, |q| q + 3)..]; continue; }
            return !u[p..].starts_with("</");
        }
        false
    })
}

// ---------------------------------------------------------------- C24

pub type Tree = BTreeMap<String, (String, Vec<u8>, u32)>;
pub fn tree(d: &Path) -> Tree {
    let mut t = Tree::new();
    let mut todo = vec![d.to_path_buf()];
    while let Some(p) = todo.pop() {
        for e in std::fs::read_dir(&p).into_iter().flatten().flatten() {
            let q = e.path();
            let n = q.strip_prefix(d).unwrap().to_string_lossy().into_owned();
            let m = std::fs::symlink_metadata(&q).unwrap();
            if m.is_dir() { t.insert(n, ("dir".into(), vec![], m.mode())); todo.push(q); }
            else if m.file_type().is_symlink() { t.insert(n, ("link".into(), std::fs::read_link(&q).unwrap().to_string_lossy().as_bytes().to_vec(), 0)); }
            else { t.insert(n, ("file".into(), std::fs::read(&q).unwrap_or_default(), m.mode())); }
        }
    }
    t
}

/// The whole directory before and after one run, against what the options allow.
fn files(c: &Case, ev: &mut Ev) -> R {
    let mut r = Rng::from(c.seed, "files", 0);
    let w = scratch();
    let d = w.join("d");
    let input = bytes_of(&c.doc);
    let mut a = c.args.clone();
    let sw = |r: &mut Rng, p: f64| (r.n(1000) as f64) < p * 1000.0;
    let (allow, copy, multi, quiet) = (sw(&mut r, 0.35), sw(&mut r, 0.5), sw(&mut r, 0.2), sw(&mut r, 0.5));
    if allow { a.push("--allow-bigger-file".into()); }
    if copy { a.push("--copy-on-error".into()); }
    if multi { a.push("--multipass".into()); }
    if quiet { a.push("--quiet".into()); }
    let newline = a.iter().rev().find_map(|x| x.strip_prefix("--append-newline=")).map_or(false, |v| matches!(v, "true" | "yes" | "y"));
    // the layout
    std::fs::write(d.join("in.svg"), &input).unwrap();
    std::fs::create_dir_all(d.join("sub")).unwrap();
    for (n, t) in [("other.svg", "decoy"), ("in.svg.bak", "bak"), ("out.svg.tmp", "tmp"), ("sub/in.svg", "sub"), ("in", "x"), ("svg", "y"), (".out.svg.swp", "z")] { std::fs::write(d.join(n), t).unwrap(); }
    let old: &[u8] = if r.n(2) == 0 { b"<svg xmlns='http://www.w3.org/2000/svg'><!-- an older and much longer output that has to be replaced as a whole --></svg>" } else { b"old" };
    let layout = r.pick(&["new", "new", "existing", "existing", "same", "dotsame", "hard", "sym", "symout", "absent-dir", "is-dir", "stdout", "stdin", "missing-input", "full", "upper", "sub"]);
    let (mut inp, mut outp, mut from_stdin, mut to_stdout) = ("in.svg".to_string(), "out.svg".to_string(), false, false);
    match layout {
        "existing" => std::fs::write(d.join("out.svg"), old).unwrap(),
        "same" => outp = "in.svg".into(),
        "dotsame" => outp = "./sub/../in.svg".into(),
        "hard" => { std::fs::hard_link(d.join("in.svg"), d.join("out.svg")).unwrap(); }
        "sym" => { std::os::unix::fs::symlink("in.svg", d.join("out.svg")).unwrap(); }
        "symout" => { std::os::unix::fs::symlink("in.svg", d.join("l.svg")).unwrap(); inp = "l.svg".into(); }
        "absent-dir" => outp = "nowhere/out.svg".into(),
        "is-dir" => { std::fs::create_dir(d.join("out.svg")).unwrap(); }
        "stdout" => to_stdout = true,
        "stdin" => { from_stdin = true; to_stdout = true; inp = "-".into(); }
        "missing-input" => inp = "none.svg".into(),
        "full" => { std::os::unix::fs::symlink("/dev/full", d.join("full.svg")).unwrap(); outp = "full.svg".into(); }
        "upper" => outp = "OUT.SVG".into(),
        "sub" => { outp = "sub/out.svg".into(); inp = "./in.svg".into(); }
        _ => {}
    }
    if to_stdout { a.push(if r.n(2) == 0 { "-c".into() } else { "--stdout".into() }); }
    let k = r.n(a.len() + 1);
    a.insert(k, inp.clone());
    if !to_stdout { let k = k + 1 + r.n(a.len() - k); a.insert(k, outp.clone()); }
    let before = tree(&d);
    let run = exec(&w, &a, if from_stdin { Some(&input) } else { None }, LIMIT);
    let after = tree(&d);
    bump(ev, &format!("files.layout.{}", layout), 1);
    if run.crashed() { return R::Skip(format!("crash (C22): {}", trunc(&run.how(), 60))); }
    let what = format!("layout {} args {:?} said {:?}", layout, a, trunc(&run.err, 140));

    // what has to be written
    let same = matches!(layout, "same" | "dotsame" | "hard" | "sym");
    let first = if layout == "missing-input" { Err(()) } else {
        match std::str::from_utf8(&input) {
            Err(_) => Err(()),
            Ok(t) => match clean(t, &c.args) { Out::Ok(s) => Ok(s), Out::BadArgs(_) => return R::Skip("args".into()), Out::Panic(_) => return R::Skip("panic (C22)".into()), _ => Err(()) },
        }
    };
    let ok = match &first {
        Err(_) => None,
        Ok(s) => {
            // the result of a multi-pass run is judged by C26; here only who may be written
            // numbers that overflow make an output that can't be cleaned again (C21 watches ordinary ones)
            if multi { if !matches!(clean(s, &c.args), Out::Ok(_)) { return R::Skip("the second pass fails".into()); } }
            let big = s.len() > input.len();
            if multi { if run.err.contains("bigger than original") { None } else { Some(None) } }
            else if big && !allow { None }
            else { Some(Some(s.clone() + if newline { "\n" } else { "" })) }
        }
    };
    // nothing but the output changes
    let target = match layout { "sym" | "same" | "dotsame" | "hard" => "in.svg", "upper" => "OUT.SVG", "sub" => "sub/out.svg", _ => "out.svg" };
    let writable = !to_stdout && !matches!(layout, "absent-dir" | "is-dir" | "full");
    for (n, x) in &before {
        let mine = writable && (n == target || layout == "hard" && (n == "out.svg"));
        match after.get(n) {
            None => return fail("deleted", format!("{} is gone; {}", n, what)),
            Some(y) if y != x && !mine => return fail("touched", format!("{} changed ({} > {} bytes); {}", n, x.1.len(), y.1.len(), what)),
            _ => {}
        }
    }
    for n in after.keys() { if !before.contains_key(n) && !(writable && n == target) { return fail("stray", format!("{} appeared; {}", n, what)); } }
    bump(ev, "files.entries_compared", before.len() as u64);
    if !same && layout != "missing-input" && after.get("in.svg").map(|x| &x.1[..]) != Some(&input[..]) { return fail("input-modified", what); }
    let got = after.get(target).map(|x| x.1.clone());
    let was = before.get(target).map(|x| x.1.clone());
    match ok {
        Some(want) => {
            bump(ev, "files.cleaned", 1);
            if to_stdout {
                if let Some(want) = want { if run.out != want.as_bytes() { return fail("wrong-output", format!("standard output holds {} bytes instead of {}; {}", run.out.len(), want.len(), what)); } }
                else if run.out.is_empty() { return fail("wrong-output", format!("nothing on standard output; {}", what)); }
            } else {
                if !run.out.is_empty() { return fail("noise", format!("standard output is not empty; {}", what)); }
                if writable {
                    match (&got, &want) {
                        (None, _) => return fail("no-output", what),
                        (Some(g), Some(want)) if g != want.as_bytes() => return fail("wrong-output", format!("{} bytes instead of {}; {}", g.len(), want.len(), what)),
                        (Some(g), None) if g.len() > input.len() + newline as usize && !allow => return fail("bigger", what),
                        _ => {}
                    }
                } else if !run.err.contains("Error") { return fail("silent", format!("the output cannot be written; {}", what)); }
            }
            if quiet && (to_stdout || writable) && run.err.lines().any(|l| !l.starts_with("Warning")) { return fail("noise", format!("not quiet; {}", what)); }
            if !quiet && (to_stdout || writable) {
                // the reported ratio
                let n = if to_stdout { run.out.len() } else { got.as_ref().map_or(0, |g| g.len()) };
                let want = format!("Your image is {:.2}% smaller now.", 100.0 - n as f64 / input.len() as f64 * 100.0);
                if !run.err.contains(&want) { return fail("ratio", format!("expected {:?}; {}", want, what)); }
                bump(ev, "files.ratios_checked", 1);
            }
        }
        None => {
            bump(ev, "files.refused", 1);
            if !run.err.contains("Error") && !run.err.contains("rror") { return fail("silent", what); }
            if !run.out.is_empty() { return fail("noise", format!("an output after an error; {}", what)); }
            if same { if got.as_deref() != Some(&input[..]) { return fail("input-modified", what); } }
            else if copy && writable && layout != "missing-input" {
                bump(ev, "files.copied", 1);
                if got.as_deref() != Some(&input[..]) { return fail("no-copy", format!("the output holds {:?} bytes, the input {}; {}", got.map(|g| g.len()), input.len(), what)); }
            } else if got != was { return fail("output-touched", what); }
        }
    }
    R::Ok
}

// ---------------------------------------------------------------- C25

fn shuffle<T>(r: &mut Rng, v: &mut [T]) { for i in (1..v.len()).rev() { let j = r.n(i + 1); v.swap(i, j); } }

/// Separate processes, ways of input and output, and orders of the options.
fn same(c: &Case, ev: &mut Ev) -> R {
    let mut r = Rng::from(c.seed, "same", 0);
    let want = match clean(&c.doc, &c.args) { Out::Ok(s) => Some(s), Out::BadArgs(_) => return R::Skip("args".into()), Out::Panic(_) => return R::Skip("panic (C22)".into()), _ => None };
    // the last value of an option counts: keep only that one before changing the order
    let mut uniq: Vec<String> = vec![];
    for x in &c.args { let k = x.split('=').next().unwrap().to_string(); uniq.retain(|y| y.split('=').next().unwrap() != k); uniq.push(x.clone()); }
    for mode in ["file-file", "file-stdout", "stdin-stdout", "file-file"] {
        let w = scratch();
        std::fs::write(w.join("d/in.svg"), c.doc.as_bytes()).unwrap();
        let mut a = uniq.clone();
        a.push("--allow-bigger-file".into());
        if r.n(2) == 0 { a.push("--quiet".into()); }
        shuffle(&mut r, &mut a);
        // both spellings of an option with a value
        if r.n(2) == 0 { a = a.iter().flat_map(|x| match x.split_once('=') { Some((k, v)) => vec![k.to_string(), v.to_string()], None => vec![x.clone()] }).collect(); }
        match mode {
            "file-file" => { a.extend(v(&["in.svg", "out.svg"])); }
            "file-stdout" => { a.extend(v(&["in.svg", "-c"])); }
            _ => { a.extend(v(&["-c", "-"])); }
        }
        let d = exec(&w, &a, if mode == "stdin-stdout" { Some(c.doc.as_bytes()) } else { None }, LIMIT);
        bump(ev, &format!("same.{}", mode), 1);
        if d.crashed() { return R::Skip(format!("crash (C22): {}", trunc(&d.how(), 60))); }
        let got = if mode == "file-file" { std::fs::read(w.join("d/out.svg")).ok() } else if d.out.is_empty() { None } else { Some(d.out.clone()) };
        let newline = c.args.iter().rev().find_map(|x| x.strip_prefix("--append-newline=")).map_or(false, |v| matches!(v, "true" | "yes" | "y"));
        let wantb = want.as_ref().map(|s| { let mut b = s.clone().into_bytes(); if newline { b.push(b'\n'); } b });
        if got != wantb {
            let (x, y) = (got.unwrap_or_default(), wantb.unwrap_or_default());
            let k = x.iter().zip(&y).take_while(|(a, b)| a == b).count();
            return fail("differs", format!("{} gives {} bytes, the library {}; first difference at {}; {:?}; {}", mode, x.len(), y.len(), k, a, trunc(&d.err, 100)));
        }
    }
    // within this process, after everything that ran before
    if let Some(s) = want { if let Out::Ok(t) = clean(&c.doc, &c.args) { bump(ev, "same.in-process", 1); if s != t { return fail("differs", "two runs in one process"); } } }
    R::Ok
}

// ---------------------------------------------------------------- C26

fn multipass(c: &Case, ev: &mut Ev) -> R {
    let single = match clean(&c.doc, &c.args) { Out::Ok(s) => s, Out::Panic(_) => return R::Skip("panic (C22)".into()), o => return R::Skip(format!("rejected: {}", trunc(&format!("{:?}", o), 40))) };
    let w = scratch();
    std::fs::write(w.join("d/in.svg"), c.doc.as_bytes()).unwrap();
    let mut a = c.args.clone();
    a.extend(v(&["--multipass", "--allow-bigger-file", "--quiet", "in.svg", "out.svg"]));
    let d = exec(&w, &a, None, LIMIT);
    bump(ev, "multipass.runs", 1);
    if d.late { return fail("endless", d.how()); }
    if d.crashed() { return fail("crash", d.how()); }
    let out = match std::fs::read_to_string(w.join("d/out.svg")) { Ok(o) => o, Err(_) => return fail("no-output", format!("a single pass works, multipass says {}", trunc(&d.err, 120))) };
    let nl = c.args.iter().any(|x| x.starts_with("--append-newline=") && !x.contains("=f") && !x.contains("=n"));
    let out = if nl { out.strip_suffix('\n').map_or(out.clone(), |s| s.to_string()) } else { out };
    let multi = d.err.contains("failed to resolved attribute");
    if multi { return R::Skip("rejected".into()); }
    if out.len() > single.len() { return fail("bigger", format!("{} bytes after multipass, {} after one pass; {}", out.len(), single.len(), trunc(&out, 300))); }
    if out.len() < single.len() { bump(ev, "multipass.improved", 1); }
    // the successive passes, one at a time
    let mut passes = vec![single.clone()];
    let mut at = None;
    for k in 0..40 {
        let next = match clean(&passes[k], &c.args) { Out::Ok(s) => s, Out::Panic(_) => return R::Skip("panic (C22)".into()), _ => break };
        passes.push(next);
        if passes[k] == out && (passes[k + 1].len() >= passes[k].len() || (k > 0 && passes[k - 1].len() == passes[k].len())) { at = Some(k); break; }
    }
    match at {
        Some(k) => { bump(ev, &format!("multipass.passes.{}", k + 1), 1); if passes[k + 1] == out { bump(ev, "multipass.fixpoints", 1); } }
        None => return fail("not-converged", format!("the result ({} bytes) is not one of the successive passes ({:?} bytes) at which the size stops shrinking; {}", out.len(), passes.iter().map(|p| p.len()).collect::<Vec<_>>(), trunc(&out, 300))),
    }
    match judge::same_picture(&c.doc, &out, &Tol { r: 0.03, ..Tol::default() }, c.seed) {
        V::Pass(st) => { bump(ev, "multipass.points_probed", st.points); R::Ok }
        V::Skip(m) => R::Skip(m),
        V::Fail(k, m) => {
            if matches!(judge::same_picture(&c.doc, &single, &Tol::default(), c.seed), V::Fail(..)) { return R::Skip("first pass".into()); }
            R::Fail(format!("multipass {}", k), m)
        }
    }
}

// ---------------------------------------------------------------- C27

pub const VALUES: &[(&str, &[&str], &str)] = &[
    ("join-style-attributes", &["no", "some", "all"], "some"),
    ("list-separator", &["space", "comma", "comma-space"], "space"),
    ("indent", &["none", "0", "1", "2", "3", "4", "tabs"], "none"),
    ("coordinates-precision", &["1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11", "12"], "6"),
    ("properties-precision", &["1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11", "12"], "6"),
    ("transforms-precision", &["1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11", "12"], "8"),
    ("paths-coordinates-precision", &["1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11", "12"], "8"),
];
/// (option, the option it needs)
pub const NEEDS: &[(&str, &str)] = &[("join-arcto-flags", "trim-paths"), ("remove-unused-segments", "paths-to-relative"), ("convert-segments", "paths-to-relative"), ("apply-transform-to-paths", "paths-to-relative")];

fn cli_clean(doc: &str, args: &[String]) -> Result<Vec<u8>, String> {
    let w = scratch();
    std::fs::write(w.join("d/in.svg"), doc.as_bytes()).unwrap();
    let mut a = args.to_vec();
    a.extend(v(&["--allow-bigger-file", "--quiet", "in.svg", "out.svg"]));
    let d = exec(&w, &a, None, LIMIT);
    std::fs::read(w.join("d/out.svg")).map_err(|_| d.how())
}

/// Stated defaults and spellings make no difference.
fn options(c: &Case, ev: &mut Ev) -> R {
    let mut r = Rng::from(c.seed, "options", 0);
    let base = match cli_clean(&c.doc, &[]) { Ok(b) => b, Err(e) => return R::Skip(format!("rejected: {}", trunc(&e, 60))) };
    let spell = |r: &mut Rng, b: bool| if b { r.pick(&["true", "yes", "y"]) } else { r.pick(&["false", "no", "n"]) };
    // 1. one option with its documented default
    let (f, d) = FLAGS[r.n(FLAGS.len())];
    let a = vec![format!("--{}={}", f, spell(&mut r, d))];
    bump(ev, &format!("options.default.{}", f), 1);
    match cli_clean(&c.doc, &a) { Ok(b) if b == base => {}, Ok(_) => return fail("default", format!("{:?} is not the default", a)), Err(e) => return fail("refused", format!("{:?}: {}", a, e)) }
    let (k, _, d) = VALUES[r.n(VALUES.len())];
    let a = vec![format!("--{}={}", k, d)];
    bump(ev, &format!("options.default.{}", k), 1);
    match cli_clean(&c.doc, &a) { Ok(b) if b == base => {}, Ok(_) => return fail("default", format!("{:?} is not the default", a)), Err(e) => return fail("refused", format!("{:?}: {}", a, e)) }
    // 2. everything off, then everything back to its default
    let mut a = vec!["--no-defaults".to_string()];
    for (f, d) in FLAGS { a.push(format!("--{}={}", f, spell(&mut r, *d))); }
    shuffle(&mut r, &mut a);
    bump(ev, "options.no_defaults_and_all_back", 1);
    match cli_clean(&c.doc, &a) { Ok(b) if b == base => {}, Ok(b) => return fail("no-defaults", format!("'--no-defaults' with all the defaults given: {} bytes instead of {}", b.len(), base.len())), Err(e) => return fail("refused", e) }
    // 3. '--no-defaults' is the same as every flag given as off
    let off: Vec<String> = FLAGS.iter().map(|(f, _)| format!("--{}={}", f, spell(&mut r, false))).collect();
    let x = cli_clean(&c.doc, &v(&["--no-defaults"]));
    let y = cli_clean(&c.doc, &off);
    bump(ev, "options.all_off", 1);
    match (x, y) { (Ok(x), Ok(y)) if x == y => {}, (Ok(x), Ok(y)) => return fail("no-defaults", format!("'--no-defaults' gives {} bytes, all flags off {}", x.len(), y.len())), (Ok(_), Err(e)) => return fail("refused", format!("all flags off: {}", e)), _ => {} }
    // 4. the spellings of one value
    let (f, _) = FLAGS[r.n(FLAGS.len())];
    let on = r.n(2) == 0;
    if !(NEEDS.iter().any(|n| n.1 == f || n.0 == f)) {
        let o: Vec<_> = (if on { ["true", "yes", "y"] } else { ["false", "no", "n"] }).iter().map(|s| cli_clean(&c.doc, &[format!("--{}={}", f, s)])).collect();
        bump(ev, &format!("options.spelling.{}", f), 1);
        if o[0].is_ok() && (o[0] != o[1] || o[1] != o[2]) { return fail("spelling", format!("--{} with the three spellings of {}", f, on)); }
        if let (false, Err(e)) = (false, &o[0]) { return fail("refused", format!("--{}={}: {}", f, on, e)); }
    }
    R::Ok
}

/// Illegal values and combinations are refused before anything is written.
fn illegal(c: &Case, ev: &mut Ev) -> R {
    let mut r = Rng::from(c.seed, "illegal", 0);
    let mut a: Vec<String> = vec![];
    // some legal ones around it
    for _ in 0..r.n(3) { let (f, d) = FLAGS[r.n(FLAGS.len())]; if !NEEDS.iter().any(|n| n.0 == f || n.1 == f) { let x = format!("--{}={}", f, if r.n(2) == 0 { d } else { !d }); if !a.iter().any(|y| y.split('=').next() == x.split('=').next()) { a.push(x); } } }
    let (mut i, mut o) = ("in.svg", Some("out.svg"));
    let mut what = "";
    let mut bad: Vec<String> = vec![];
    match r.n(9) {
        0 | 1 => {
            what = "flag value";
            let (f, _) = FLAGS[r.n(FLAGS.len())];
            a.retain(|x| !x.starts_with(&format!("--{}=", f)));
            bad.push(format!("--{}={}", f, r.pick(&["maybe", "True", "YES", "1", "0", "on", "off", "tru", "falsee", "none", "nope", " true"])));
        }
        2 | 3 => {
            what = "precision";
            bad.push(format!("--{}={}", r.pick(&["coordinates-precision", "properties-precision", "transforms-precision", "paths-coordinates-precision"]), r.pick(&["0", "13", "100", "255", "256", "-1", "1.5", "abc", "6a"])));
        }
        4 => {
            what = "choice";
            bad.push(r.pick(&["--indent=5", "--indent=-1", "--indent=tab", "--indent=None", "--list-separator=;", "--list-separator=Space", "--list-separator=comma_space", "--join-style-attributes=yes", "--join-style-attributes=true", "--join-style-attributes=ALL"]).to_string());
        }
        5 => {
            what = "unknown option";
            bad.push(r.pick(&["--remove-everything=true", "--remove-title2=true", "--multi-pass", "--no-default", "-x", "--title=true", "--precision=5", "--force"]).to_string());
        }
        6 => {
            what = "file type";
            if r.n(2) == 0 { i = r.pick(&["in.png", "in", "svg", "in.svg.bak", "in.svgz", "in.Svg"]); } else { o = Some(r.pick(&["out.png", "out", "out.svg.bak", "out.svgz", "out.svG"])); }
        }
        7 => {
            what = "combination";
            let (f, n) = r.pickv(NEEDS);
            a.clear();
            bad.push(format!("--{}={}", f, r.pick(&["true", "yes", "y"])));
            bad.push(format!("--{}={}", n, r.pick(&["false", "no", "n"])));
            if n == "paths-to-relative" { for (q, _) in NEEDS.iter().filter(|q| q.1 == n && q.0 != f) { bad.push(format!("--{}=false", q)); } }
        }
        _ => {
            what = "missing or extra file";
            match r.n(3) { 0 => { o = None; } 1 => { bad.push("third.svg".into()); } _ => { i = ""; o = None; } }
        }
    }
    for b in bad { let k = r.n(a.len() + 1); a.insert(k, b); }
    if r.n(4) == 0 { a.push("--copy-on-error".into()); }
    if !i.is_empty() { a.push(i.into()); }
    if let Some(o) = o { a.push(o.into()); }
    let w = scratch();
    let d = w.join("d");
    for n in ["in.svg", "in.png", "in", "svg", "in.svg.bak", "in.svgz", "in.Svg"] { std::fs::write(d.join(n), c.doc.as_bytes()).unwrap(); }
    let existing = r.n(2) == 0;
    if existing { for n in ["out.svg", "out.png", "out", "third.svg"] { std::fs::write(d.join(n), b"keep me").unwrap(); } }
    let before = tree(&d);
    let run = exec(&w, &a, None, LIMIT);
    bump(ev, &format!("illegal.{}", what.replace(' ', "_")), 1);
    if run.crashed() { return fail("crash", format!("{:?}: {}", a, run.how())); }
    if tree(&d) != before { return fail("accepted", format!("{} {:?}: something was written; {}", what, a, trunc(&run.err, 120))); }
    if run.err.trim().is_empty() { return fail("silent", format!("{} {:?} was ignored without a message", what, a)); }
    if !run.out.is_empty() { return fail("noise", format!("{} {:?}: {}", what, a, trunc(&String::from_utf8_lossy(&run.out), 80))); }
    R::Ok
}
