//! Monitors of refusals (C23), rounding (C16) and output formats (C20).
use crate::clean::Out;
use crate::cliruns::{exec, scratch};
use crate::gen::{self, Ch, El};
use crate::mon::{bump, fail, trunc, Case, Ev, R};
use crate::profiles;
use crate::rng::Rng;
use crate::style;
use crate::xml::{self, Doc};

pub const EVENTS: &[&str] = &["onfocusin", "onfocusout", "onactivate", "onclick", "onmousedown", "onmouseup", "onmouseover", "onmousemove", "onmouseout",
    "onload", "onunload", "onabort", "onerror", "onresize", "onscroll", "onzoom", "onbegin", "onend", "onrepeat"];
const ANIM: &[&str] = &["animate", "animateColor", "animateMotion", "animateTransform", "set"];
/// elements that may reference other files
const LINKING: &[&str] = &["a", "image", "font-face-uri", "feImage"];
const URLPROPS: &[&str] = &["fill", "stroke", "filter", "clip-path", "mask", "marker", "marker-start", "marker-mid", "marker-end"];

fn external_url(v: &str) -> bool {
    let mut r = v;
    while let Some(i) = r.find("url(") {
        r = r[i + 4..].trim_start().trim_start_matches(|c| c == '\'' || c == '"');
        if !r.starts_with('#') { return true; }
    }
    false
}

/// What a document contains that has to be refused: (kind, description)
pub fn unsupported(d: &Doc) -> Vec<(&'static str, String)> {
    let mut v = vec![];
    for n in d.elems() {
        let t = d.svg(n);
        if t.is_empty() { continue; }
        if t == "script" { v.push(("script", "<script>".to_string())); }
        if ANIM.contains(&t) { v.push(("animation", format!("<{}>", t))); }
        for a in d.attrs(n) {
            let k = a.name.as_str();
            if EVENTS.contains(&k) { v.push(("event", format!("<{} {}>", t, k))); }
            if (k == "requiredFeatures" || k == "systemLanguage") && !a.value.trim().is_empty() { v.push(("condition", format!("<{} {}={:?}>", t, k, a.value))); }
            if k == "xlink:href" && !a.value.trim().starts_with('#') && !LINKING.contains(&t) { v.push(("href", format!("<{} xlink:href={:?}>", t, trunc(&a.value, 60)))); }
            if URLPROPS.contains(&k) && external_url(&a.value) { v.push(("url", format!("<{} {}={:?}>", t, k, a.value))); }
            if k == "style" { for (p, w) in style::parse_decls(&a.value) { if URLPROPS.contains(&p.as_str()) && external_url(&w) { v.push(("url", format!("<{} style={:?}>", t, a.value))); } } }
        }
    }
    v
}

/// What has to be refused in the whole document.
fn scan(doc: &str) -> Result<Vec<(&'static str, String)>, String> {
    if doc.contains("<!ENTITY") && doc.contains(" SYSTEM ") { return Ok(vec![("entity", "an external entity".into())]); }
    let d = xml::parse(doc)?;
    let mut v = unsupported(&d);
    if d.pis > 0 && doc.contains("<?xml-stylesheet") { v.push(("stylesheet", "<?xml-stylesheet?>".into())); }
    Ok(v)
}

fn refusal_kind(msg: &str) -> Option<&'static str> {
    for (t, k) in [("scripting is not supported", "script"), ("animation is not supported", "animation"), ("conditional processing attributes is not supported", "condition"), ("referencing an external object", "href")] {
        if msg.contains(t) { return Some(k); }
    }
    None
}

/// A document with unsupported content is refused, one without any is not refused for it.
pub fn refusal(c: &Case, o: &Out, ev: &mut Ev) -> R {
    let bad = match scan(&c.doc) { Ok(b) => b, Err(e) => return R::Skip(format!("input: {}", e)) };
    match o {
        Out::BadArgs(e) => R::Skip(format!("args: {}", trunc(e, 50))),
        Out::Panic(p) => fail("panic", p.clone()),
        Out::Ok(_) => {
            if let Some((k, w)) = bad.first() { return fail(&format!("accepted-{}", k), format!("accepted, but contains {}", w)); }
            bump(ev, "refusal.accepted_without", 1);
            R::Ok
        }
        Out::ParseErr(e) | Out::CleanErr(e) => {
            match refusal_kind(e) {
                // a script of XHTML inside 'foreignObject': nothing is promised about it
                Some(_) if bad.is_empty() && xml::parse(&c.doc).map_or(false, |d| d.nodes.iter().any(|n| matches!(&n.kind, xml::Kind::Elem { name, svg: false, .. } if name == "script" || ANIM.contains(&name.as_str())))) => R::Skip("a script that is not SVG".into()),
                Some(_) if bad.is_empty() => fail("refused", format!("refused without a reason: {}", e)),
                _ if bad.is_empty() => R::Skip(format!("rejected: {}", trunc(e, 50))),
                k => {
                    for (b, _) in &bad { bump(ev, &format!("refusal.refused.{}", b), 1); }
                    bump(ev, &format!("refusal.message.{}", k.unwrap_or("other")), 1);
                    R::Ok
                }
            }
        }
    }
}

/// The program leaves nothing behind and says why.
pub fn cli_refusal(c: &Case, ev: &mut Ev) -> R {
    let bad = match scan(&c.doc) { Ok(b) => b, Err(e) => return R::Skip(format!("input: {}", e)) };
    let w = scratch();
    let p = w.join("d");
    std::fs::write(p.join("in.svg"), &c.doc).unwrap();
    let existing = c.seed % 2 == 0;
    if existing { std::fs::write(p.join("out.svg"), "keep").unwrap(); }
    let mut a = vec!["--quiet".to_string(), "--allow-bigger-file".to_string()];
    a.extend(c.args.iter().cloned());
    let stdout = c.seed % 3 == 0;
    a.push("in.svg".into());
    a.push(if stdout { "-c".into() } else { "out.svg".into() });
    let r = exec(&w, &a, None, std::time::Duration::from_secs(30));
    if r.crashed() { return fail("crash", r.how()); }
    let now = std::fs::read(p.join("out.svg")).ok();
    let untouched = now.as_deref() == if existing { Some(&b"keep"[..]) } else { None };
    let made = if stdout { !r.out.is_empty() } else { !untouched };
    bump(ev, "refusal.program_runs", 1);
    if let Some((k, t)) = bad.first() {
        if made { return fail(&format!("output-{}", k), format!("the program wrote an output of a document with {}", t)); }
        if r.err.trim().is_empty() { return fail("silent", format!("nothing was said about {}", t)); }
        bump(ev, &format!("refusal.program_refused.{}", k), 1);
    } else if let Some(k) = refusal_kind(&r.err) { return fail("refused", format!("refused for {} that is not there: {}", k, trunc(&r.err, 100))); }
    R::Ok
}

fn count(e: &El) -> usize { let mut n = 0; e.walk(&mut |_| n += 1); n }
fn nth(e: &mut El, mut k: usize, f: &mut dyn FnMut(&mut El)) { e.walk_mut(&mut |x| { if k == 0 { f(x); } k = k.wrapping_sub(1); }); }

fn host(e: &El) -> bool { !e.name.contains(':') && !matches!(e.name.as_str(), "style" | "title" | "desc" | "metadata") }

/// A document of a random profile with some unsupported or merely suspicious content.
pub fn inject(r: &mut Rng) -> Case {
    let p = profiles::get(r.pick(profiles::NAMES), r);
    let mut root = gen::G::new(r, p).document();
    let bad = r.p(65);
    let k = if bad { 1 } else { r.n(3) };
    for _ in 0..k {
        let n = count(&root);
        // half of the time every kind of element is as likely as any other
        let rare = if r.p(50) { let mut names = vec![]; for i in 0..n { nth(&mut root, i, &mut |e| names.push(e.name.clone())); } let mut kinds = names.clone(); kinds.sort(); kinds.dedup(); Some((names, kinds)) } else { None };
        for _try in 0..20 {
            let at = match rare { Some((ref names, ref kinds)) if names.len() == n => { let k = r.pickv(kinds); let of: Vec<usize> = (0..n).filter(|i| names[*i] == k).collect(); of[r.n(of.len())] } _ => r.n(n) };
            let mut done = false;
            let (kind, ev) = (r.n(if bad { 7 } else { 9 }), r.pick(EVENTS).to_string());
            let anim = r.pick(ANIM).to_string();
            let ext = r.pick(&["other.svg#x", "http://example.org/a.svg#b", "../x.svg", "a.svg", "file:///x.svg#y", "data:image/svg+xml;base64,AAAA", "x y.svg"]).to_string();
            let (pos, sub) = (r.n(100), r.n(6));
            let prop = r.pick(&["fill", "stroke", "filter", "clip-path", "mask", "marker-end"]).to_string();
            nth(&mut root, at, &mut |e| {
                if !host(e) { return; }
                let p = pos % (e.ch.len() + 1);
                done = true;
                if bad {
                    match kind {
                        0 => { let mut s = El::new("script"); if sub % 2 == 0 { s.text("f()"); } if sub % 3 == 0 { s.set("type", "text/ecmascript"); } e.ch.insert(p, Ch::E(s)); }
                        1 => { let mut s = El::new(&anim); s.set("attributeName", "x"); s.set("dur", "1s"); e.ch.insert(p, Ch::E(s)); }
                        2 => e.set(&ev, if sub == 0 { "" } else { "f(evt)" }),
                        3 => e.set("requiredFeatures", if sub == 0 { "x" } else { "http://www.w3.org/TR/SVG11/feature#Shape" }),
                        4 => e.set("systemLanguage", ["en", "de, fr", "zz", "ru", "en-US", "x"][sub]),
                        5 => if LINKING.contains(&e.name.as_str()) { done = false } else { e.set("xlink:href", ext.clone()) },
                        _ => {
                            if e.name == "svg" || e.name == "defs" { done = false; return; }
                            let v = format!("url({})", ext.replace(' ', ""));
                            if sub % 2 == 0 { e.set(&prop, v) } else { e.set("style", format!("{}:{}", prop, v)) }
                        }
                    }
                } else {
                    match kind {
                        0 => e.set("requiredFeatures", ""),
                        1 => e.set("systemLanguage", ""),
                        2 => e.set("requiredExtensions", "http://example.org/ext"),
                        3 => e.ch.insert(p, Ch::Raw("<!-- <script/> onclick=\"f()\" -->".into())),
                        4 => e.ch.insert(p, Ch::Raw("<title>onload systemLanguage script</title>".into())),
                        5 => e.set("class", "onclick script animate"),
                        6 => e.ch.insert(p, Ch::Raw("<x:script xmlns:x=\"http://example.org/ns\"><x:set onclick=\"f()\"/></x:script>".into())),
                        7 => { let mut a = El::new("a"); a.set("xlink:href", ext.clone()); a.push(El::new("rect")); if matches!(e.name.as_str(), "g" | "svg") { e.ch.insert(p, Ch::E(a)) } }
                        _ => { let mut i = El::new("image"); i.set("xlink:href", ext.clone()); i.set("width", "10"); i.set("height", "9"); if matches!(e.name.as_str(), "g" | "svg") { e.ch.insert(p, Ch::E(i)) } }
                    }
                }
            });
            if done { break; }
        }
    }
    let doc = gen::serialize(&root, r, true);
    let args = match r.n(3) { 0 => vec![], 1 => crate::args::gen("rand", r), _ => crate::args::gen("nodef", r) };
    Case { doc, args, seed: r.u64() | 1, accept: false }
}

// ---------------------------------------------------------------- C16

const COORD: &[&str] = &["x", "y", "dx", "dy", "x1", "y1", "x2", "y2", "r", "rx", "ry", "cx", "cy", "fx", "fy", "width", "height", "stroke-dasharray"];
const PROPS: &[&str] = &["stroke-dashoffset", "stroke-miterlimit", "stroke-width", "opacity", "fill-opacity", "flood-opacity", "stroke-opacity", "stop-opacity", "font-size"];
const PATHS: &[&str] = &["d", "points", "viewBox"];
const TRANSF: &[&str] = &["transform", "gradientTransform", "patternTransform"];
const POPTS: [&str; 4] = ["--coordinates-precision=", "--properties-precision=", "--transforms-precision=", "--paths-coordinates-precision="];

/// Splits a value into text and numbers: (text before, number), and the rest.
pub fn tokens(s: &str) -> (Vec<(String, String)>, String) {
    let b = s.as_bytes();
    let (mut v, mut t, mut i) = (vec![], String::new(), 0);
    while i < b.len() {
        let st = i;
        if b[i] == b'-' || b[i] == b'+' { i += 1; }
        let ds = i;
        while i < b.len() && b[i].is_ascii_digit() { i += 1; }
        if i < b.len() && b[i] == b'.' && (i > ds || b.get(i + 1).map_or(false, |c| c.is_ascii_digit())) { i += 1; while i < b.len() && b[i].is_ascii_digit() { i += 1; } }
        if i > ds && s[ds..i].bytes().any(|c| c.is_ascii_digit()) {
            if i + 1 < b.len() && (b[i] | 32) == b'e' && (b[i + 1].is_ascii_digit() || (b[i + 1] == b'-' && b.get(i + 2).map_or(false, |c| c.is_ascii_digit()))) { i += 2; while i < b.len() && b[i].is_ascii_digit() { i += 1; } }
            v.push((std::mem::take(&mut t), s[st..i].to_string()));
        } else { let ch = s[st..].chars().next().unwrap(); t.push(ch); i = st + ch.len_utf8(); }
    }
    (v, t)
}
fn digits(s: &str) -> usize { s.split_once('.').map_or(0, |x| x.1.split(|c: char| c == 'e' || c == 'E').next().unwrap().len()) }

/// Every number keeps the digits that its option allows and moves by half a unit of the last one at most.
pub fn rounding(c: &Case, s: &str, ev: &mut Ev) -> R {
    let p: Vec<i32> = POPTS.iter().zip([6, 6, 8, 8]).map(|(o, d)| c.args.iter().rev().find_map(|a| a.strip_prefix(o)?.parse().ok()).unwrap_or(d)).collect();
    let mut fine: Vec<String> = c.args.iter().filter(|a| !POPTS.iter().any(|o| a.starts_with(o))).cloned().collect();
    for o in POPTS { fine.push(format!("{}12", o)); }
    let s2 = match crate::clean::clean(&c.doc, &fine) { Out::Ok(s) => s, _ => return R::Skip("the finer run is rejected".into()) };
    let (a, b) = match (xml::parse(s), xml::parse(&s2)) { (Ok(a), Ok(b)) => (a, b), _ => return R::Skip("output".into()) };
    let (ea, eb) = (a.elems(), b.elems());
    // only the digits can be watched when rewriting depends on the values
    let exact = !c.args.iter().any(|x| x == "--paths-to-relative=true");
    if exact && (ea.len() != eb.len() || ea.iter().zip(&eb).any(|(x, y)| a.name(*x) != b.name(*y))) { return fail("structure", "the elements depend on the precision"); }
    for (k, &x) in ea.iter().enumerate() {
        let mut names: Vec<&str> = a.attrs(x).iter().map(|t| t.name.as_str()).collect();
        if exact { names.extend(b.attrs(eb[k]).iter().map(|t| t.name.as_str())); }
        names.sort(); names.dedup();
        for n in names {
            let ident = if TRANSF.contains(&n) { Some("matrix(1 0 0 1 0 0)") } else { None };
            let va = match a.attr(x, n).or(ident) { Some(v) => v, None => return fail("attribute", format!("{} of <{}> is written with more precision only", n, a.name(x))) };
            let cls = if COORD.contains(&n) { 0 } else if PROPS.contains(&n) { 1 } else if TRANSF.contains(&n) { 2 } else if PATHS.contains(&n) { 3 } else { 4 };
            if !exact && n != "d" { continue; }
            let (ta, ra) = tokens(va);
            if cls < 4 {
                for (i, (_, t)) in ta.iter().enumerate() {
                    let q = if cls == 2 && i % 6 >= 4 { p[0] } else { p[cls] };
                    if digits(t) > q as usize { return fail("digits", format!("<{} {}>: {} has more than {} digits", a.name(x), n, t, q)); }
                    bump(ev, "rounding.digits_checked", 1);
                }
            }
            if !exact { continue; }
            let vb = match b.attr(eb[k], n).or(ident) { Some(v) => v, None => return fail("attribute", format!("{} of <{}> is written with less precision only", n, a.name(x))) };
            if cls == 4 { if va != vb { return fail("other", format!("<{} {}>: {:?} against {:?}", a.name(x), n, trunc(va, 60), trunc(vb, 60))); } continue; }
            let (tb, rb) = tokens(vb);
            if ta.len() != tb.len() || ra.trim() != rb.trim() || ta.iter().zip(&tb).any(|(x, y)| x.0.trim() != y.0.trim()) { return fail("form", format!("<{} {}>: {:?} against {:?}", a.name(x), n, trunc(va, 60), trunc(vb, 60))); }
            for (i, (x1, y1)) in ta.iter().zip(&tb).enumerate() {
                let q = if cls == 2 && i % 6 >= 4 { p[0] } else { p[cls] };
                let (fa, fb): (f64, f64) = (x1.1.parse().unwrap_or(f64::NAN), y1.1.parse().unwrap_or(f64::NAN));
                let lim = 0.5 * 10f64.powi(-q) * 1.0000001 + 1e-11 * fb.abs().max(1.0);
                if !((fa - fb).abs() <= lim) { return fail("moved", format!("<{} {}>: {} became {} with {} digits", a.name(x), n, y1.1, x1.1, q)); }
                bump(ev, if fa == fb { "rounding.unchanged" } else { "rounding.rounded" }, 1);
            }
        }
    }
    R::Ok
}

/// Numbers are rounded once, before anything is computed from them: the other options keep the picture of the rounded document.
pub fn lowpic(c: &Case, s: &str, ev: &mut Ev) -> R {
    let mut base: Vec<String> = ["--no-defaults", "--join-style-attributes=no"].iter().map(|s| s.to_string()).collect();
    base.extend(c.args.iter().filter(|a| POPTS.iter().any(|o| a.starts_with(o))).cloned());
    let b = match crate::clean::clean(&c.doc, &base) { Out::Ok(b) => b, _ => return R::Skip("the rounded document is rejected".into()) };
    match crate::judge::same_picture(&b, s, &Default::default(), c.seed) {
        crate::judge::V::Pass(st) => { bump(ev, "lowpic.points_probed", st.points); bump(ev, "lowpic.points_painted", st.painted); R::Ok }
        crate::judge::V::Skip(m) => R::Skip(m),
        crate::judge::V::Fail(k, m) => R::Fail(k, m),
    }
}

/// Ordinary documents whose numbers are rounded to few digits.
pub fn low(r: &mut Rng) -> Case {
    let p = profiles::get(r.pick(&["mixed", "ts", "paths", "shapes", "grads", "groups", "units", "defaults"]), r);
    let root = gen::G::new(r, p).document();
    let mut args = match r.n(3) { 0 => vec![], 1 => crate::args::gen("rand", r), _ => crate::args::gen("nodef", r) };
    args.retain(|a| !POPTS.iter().any(|o| a.starts_with(o)));
    for o in POPTS { if r.p(80) { args.push(format!("{}{}", o, 1 + r.n(3))); } }
    Case { doc: gen::serialize(&root, r, true), args, seed: r.u64() | 1, accept: true }
}

/// Documents with long numbers, and options that rewrite nothing but digits.
pub fn precise(r: &mut Rng) -> Case {
    let p = profiles::get(r.pick(profiles::NAMES), r);
    let mut root = gen::G::new(r, p).document();
    root.walk_mut(&mut |e| for a in e.at.iter_mut() {
        if !(COORD.contains(&a.0.as_str()) || PROPS.contains(&a.0.as_str()) || TRANSF.contains(&a.0.as_str()) || PATHS.contains(&a.0.as_str())) { continue; }
        let (t, rest) = tokens(&a.1);
        let mut o = String::new();
        for (x, n) in t {
            o.push_str(&x);
            if digits(&n) > 0 && !n.contains(|c| c == 'e' || c == 'E') && r.p(70) { o.push_str(&n); for _ in 0..r.n(8) { o.push((b'0' + r.n(10) as u8) as char); } if r.p(10) { o.push('5'); } } else { o.push_str(&n); }
        }
        o.push_str(&rest);
        a.1 = o;
    });
    let mut args: Vec<String> = ["--no-defaults", "--join-style-attributes=no"].iter().map(|s| s.to_string()).collect();
    if r.p(25) { args.push("--paths-to-relative=true".into()); for f in ["trim-paths", "remove-dupl-cmd-in-paths", "use-implicit-cmds", "remove-unused-segments", "convert-segments"] { if r.p(50) { args.push(format!("--{}=true", f)); } } }
    else { for f in ["trim-colors", "remove-comments", "remove-version", "trim-ids", "remove-unreferenced-ids", "remove-title", "remove-desc", "remove-metadata", "remove-nonsvg-elements"] { if r.p(30) { args.push(format!("--{}=true", f)); } } }
    for o in POPTS { if r.p(90) { args.push(format!("{}{}", o, 1 + r.n(11))); } }
    Case { doc: gen::serialize(&root, r, true), args, seed: 0, accept: true }
}
