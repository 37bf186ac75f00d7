//! Injected faults: a write that fails half-way, missing rights, closed streams, a kill at any moment.
//! What must survive: the input, every other file, and the old output or a whole new one.
use std::io::{Read, Write};
use std::os::unix::fs::PermissionsExt;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

use crate::clean::{clean, Out};
use crate::cliruns::{scratch, tree, BIN, REPRODUCING};
use crate::mon::{bump, fail, trunc, Case, Ev, R};
use crate::rng::Rng;

#[repr(C)]
struct Rlimit { cur: u64, max: u64 }
extern "C" {
    fn setrlimit(what: i32, l: *const Rlimit) -> i32;
    fn signal(sig: i32, h: usize) -> usize;
    fn setgroups(n: usize, l: *const u32) -> i32;
    fn close(fd: i32) -> i32;
}
const FSIZE: i32 = 1;
const NOFILE: i32 = 7;
const SIGXFSZ: i32 = 25;

fn listed(id_failure: &str) -> Option<String> {
    let f = std::fs::read_to_string("/verif/known-findings.txt").unwrap_or_default();
    f.lines().filter_map(|l| l.strip_prefix("known: ")).find(|l| l.contains("monitor=cli-faults ") && l.contains(&format!("failure={} ", id_failure)))
        .and_then(|l| l.split_whitespace().find_map(|x| x.strip_prefix("id=")).map(|x| x.to_string()))
}

pub fn faults(c: &Case, ev: &mut Ev) -> R {
    let mut r = Rng::from(c.seed, "faults", 0);
    let want = match clean(&c.doc, &c.args) { Out::Ok(s) => s.into_bytes(), Out::Panic(_) => return R::Skip("panic (C22)".into()), _ => return R::Skip("not cleaned".into()) };
    let newline = c.args.iter().rev().find_map(|x| x.strip_prefix("--append-newline=")).map_or(false, |v| matches!(v, "true" | "yes" | "y"));
    let want = if newline { let mut w = want; w.push(b'\n'); w } else { want };
    let w = scratch();
    let d = w.join("d");
    let input = c.doc.as_bytes();
    std::fs::write(d.join("in.svg"), input).unwrap();
    for n in ["other.svg", "in.svg.tmp", "out.svg.bak"] { std::fs::write(d.join(n), n).unwrap(); }
    let fault = r.pick(&["fsize", "fsize", "fsize-kill", "kill", "kill", "ro-output", "ro-dir", "ro-input", "no-read", "nofile", "pipe", "full-out", "full-err", "no-stdin", "no-stdout", "no-stderr"]);
    let place = if matches!(fault, "pipe" | "full-out" | "no-stdout") { "stdout" } else if fault == "no-stdin" { "stdin" } else { r.pick(&["new", "old", "old", "same"]) };
    let place = if matches!(fault, "ro-output") { "old" } else if fault == "ro-dir" { "new" } else { place };
    let old: Vec<u8> = b"<svg xmlns='http://www.w3.org/2000/svg'><!-- the former output, which is not so short and must not shine through --></svg>".to_vec();
    if place == "old" { std::fs::write(d.join("out.svg"), &old).unwrap(); }
    let target = if place == "same" { "in.svg" } else { "out.svg" };
    let mut a = c.args.clone();
    a.push("--allow-bigger-file".into());
    let copy = r.p(40);
    if copy { a.push("--copy-on-error".into()); }
    let quiet = r.p(30);
    if quiet { a.push("--quiet".into()); }
    match place { "stdout" => a.extend(["in.svg".to_string(), "-c".into()]), "stdin" => a.extend(["-".to_string(), "-c".into()]), _ => a.extend(["in.svg".to_string(), target.into()]) }
    // rights: as another user, as root has all of them
    let unpriv = matches!(fault, "ro-output" | "ro-dir" | "ro-input" | "no-read");
    let mode = |p: &std::path::Path, m: u32| std::fs::set_permissions(p, std::fs::Permissions::from_mode(m)).unwrap();
    if unpriv {
        let mut up = Some(w.as_path());
        while let Some(u) = up { if u == std::path::Path::new("/tmp") || u == std::path::Path::new("/") { break; } if std::fs::metadata(u).map(|m| m.permissions().mode() & 0o001 == 0).unwrap_or(false) { return R::Skip("scratch is closed to others".into()); } up = u.parent(); }
        mode(&d, 0o777);
        for e in std::fs::read_dir(&d).unwrap().flatten() { mode(&e.path(), 0o666); }
        match fault { "ro-output" => mode(&d.join("out.svg"), 0o444), "ro-dir" => mode(&d, 0o555), "ro-input" => mode(&d.join("in.svg"), 0o444), _ => mode(&d.join("in.svg"), 0o000) }
    }
    let limit = r.n(want.len() + 40) as u64;
    let before = tree(&d);
    let mut cmd = Command::new(BIN);
    cmd.args(&a).current_dir(&d).env_remove("RUST_BACKTRACE").process_group(0).stdin(Stdio::null()).stderr(Stdio::piped()).stdout(Stdio::piped());
    if fault == "full-out" { cmd.stdout(Stdio::from(std::fs::OpenOptions::new().write(true).open("/dev/full").unwrap())); }
    if fault == "full-err" { cmd.stderr(Stdio::from(std::fs::OpenOptions::new().write(true).open("/dev/full").unwrap())); }
    let f2 = fault.to_string();
    unsafe {
        cmd.pre_exec(move || {
            match &f2[..] {
                "fsize" => { signal(SIGXFSZ, 1); setrlimit(FSIZE, &Rlimit { cur: limit, max: limit }); }
                "fsize-kill" => { signal(SIGXFSZ, 0); setrlimit(FSIZE, &Rlimit { cur: limit, max: limit }); }
                "nofile" => { setrlimit(NOFILE, &Rlimit { cur: 3, max: 3 }); }
                "no-stdin" => { close(0); }
                "no-stdout" => { close(1); }
                "no-stderr" => { close(2); }
                _ => {}
            }
            Ok(())
        });
        if unpriv { cmd.pre_exec(|| { setgroups(0, std::ptr::null()); Ok(()) }); cmd.uid(65534).gid(65534); }
    }
    let mut ch = match cmd.spawn() { Ok(c) => c, Err(e) => { if unpriv { return R::Skip(format!("cannot change the user: {}", e)); } panic!("cannot run: {}", e) } };
    let mut killed = false;
    if fault == "pipe" { drop(ch.stdout.take()); }
    if fault == "kill" { std::thread::sleep(Duration::from_micros(r.n(3500) as u64)); ch.kill().ok(); killed = true; }
    let (mut out, mut err) = (vec![], vec![]);
    let (so, se) = (ch.stdout.take(), ch.stderr.take());
    let t = std::thread::spawn(move || { if let Some(mut s) = se { s.read_to_end(&mut err).ok(); } err });
    let t0 = Instant::now();
    if let Some(mut s) = so { s.read_to_end(&mut out).ok(); }
    let st = loop { match ch.try_wait() { Ok(Some(s)) => break s, _ => {} } if t0.elapsed() > Duration::from_secs(30) { ch.kill().ok(); ch.wait().ok(); return fail("hang", fault); } std::thread::sleep(Duration::from_micros(300)); };
    let err = String::from_utf8_lossy(&t.join().unwrap()).into_owned();
    std::io::stdout().flush().ok();
    if unpriv { mode(&d, 0o755); }
    let mut after = tree(&d);
    if fault == "no-read" { mode(&d.join("in.svg"), 0o666); }
    if unpriv { for (n, x) in after.iter_mut() { if let Some(b) = before.get(n) { if n != target { x.2 = b.2; } else if b.2 != 0 { x.2 = b.2; } } } }
    bump(ev, &format!("faults.{}.{}", fault, place), 1);
    let what = format!("fault {} ({} of {} bytes) place {} args {:?}: exit {:?} signal {:?} said {:?}", fault, limit, want.len(), place, a, st.code(), st.signal(), trunc(&err, 140));
    if killed && st.signal().is_some() { bump(ev, "faults.killed", 1); }
    if st.signal().is_some() && !matches!(fault, "kill" | "fsize-kill") { return fail("signal", what); }
    // a message that can't be written is the only thing nobody can report
    if (err.contains("panicked at") || st.code() == Some(101)) && fault != "full-err" { return fail("panic", what); }

    for (n, x) in &before {
        if n == target && place != "stdout" && place != "stdin" { continue; }
        match after.get(n) { None => return fail("deleted", format!("{} is gone; {}", n, what)), Some(y) if y.1 != x.1 => return fail("touched", format!("{} changed; {}", n, what)), _ => {} }
    }
    for n in after.keys() { if !before.contains_key(n) && !(n == target && place != "stdout" && place != "stdin") { return fail("stray", format!("{} appeared; {}", n, what)); } }
    bump(ev, "faults.entries_compared", before.len() as u64);

    if place == "stdout" || place == "stdin" {
        // what can't be delivered is reported
        if matches!(fault, "full-out" | "pipe") && !err.contains("rror") && !want.is_empty() {
            // the reader may have gone only after everything was delivered
            if fault == "full-out" { return fail("silent", what); }
        }
        if fault == "no-stdin" { if !out.is_empty() && !st.success() { return fail("noise", what); } }
        return R::Ok;
    }
    let was = before.get(target).map(|x| &x.1);
    let got = after.get(target).map(|x| &x.1);
    let whole = got == Some(&want);
    let kept = got == was;
    let done = st.success() && !err.contains("rror");
    if whole { bump(ev, "faults.whole_output", 1); } else if kept { bump(ev, "faults.kept_output", 1); }
    // an end without a complaint means a whole output
    if done && !whole && st.signal().is_none() && fault != "no-stderr" && fault != "full-err" { return fail("silent", what); }
    if matches!(fault, "ro-input" | "no-stderr") && place != "same" && !whole { return fail("no-output", what); }
    if matches!(fault, "ro-output" | "ro-dir" | "no-read" | "nofile") && !kept {
        // a file that can be read by nobody is still replaced in an own directory
        return fail("output-touched", what);
    }
    if whole || kept { return R::Ok; }
    // the output is neither the old nor the new one
    let cut = got.map_or(false, |g| want.starts_with(g));
    if !cut || !matches!(fault, "fsize" | "fsize-kill" | "kill") { return fail("garbage", format!("{} bytes that are neither the old nor the new output; {}", got.map_or(0, |g| g.len()), what)); }
    if !REPRODUCING.with(|x| x.get()) { if let Some(id) = listed("partial") { bump(ev, &format!("faults.known.{}", id), 1); return R::Ok; } }
    fail("partial", format!("the output holds {} of {} bytes; {}", got.unwrap().len(), want.len(), what))
}
