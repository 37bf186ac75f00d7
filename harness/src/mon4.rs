//! C20: options that only say how the output is spelled.
use std::collections::BTreeMap;

use crate::clean::Out;
use crate::geom::{self, Seg};
use crate::mon::{bump, fail, trunc, Case, Ev, R};
use crate::rng::Rng;
use crate::style;
use crate::xml::{self, Doc};

const SPELL: &[&str] = &["trim-colors", "trim-paths", "join-arcto-flags", "remove-dupl-cmd-in-paths", "use-implicit-cmds", "simplify-transforms"];

/// The same options with another spelling of the output.
pub fn respell(args: &[String], r: &mut Rng) -> (Vec<String>, Vec<String>) {
    let val = |k: &str| args.iter().rev().find_map(|a| a.strip_prefix(&format!("--{}=", k)).map(|x| x.to_string()));
    let nodef = args.iter().any(|a| a == "--no-defaults");
    let on = |k: &str| val(k).map_or(!nodef && crate::clean::FLAGS.iter().any(|f| f.0 == k && f.1), |v| matches!(v.as_str(), "true" | "yes" | "y"));
    let mut new: Vec<(String, String)> = vec![];
    let many = r.p(40);
    for k in SPELL { if r.p(if many { 60 } else { 18 }) { new.push((k.to_string(), format!("{}", !on(k)))); } }
    if r.p(if many { 60 } else { 25 }) {
        // grouping depends on the size of an indented line
        let flat = |x: &str| matches!(x, "none" | "0");
        let cur = val("indent").unwrap_or("none".into());
        let pool: Vec<&str> = ["none", "0", "1", "2", "3", "4", "tabs"].into_iter().filter(|x| !on("group-by-style") || flat(x) == flat(&cur)).collect();
        new.push(("indent".into(), pool[r.n(pool.len())].into()));
    }
    if r.p(if many { 60 } else { 25 }) { new.push(("list-separator".into(), r.pick(&["space", "comma", "comma-space"]).into())); }
    if r.p(if many { 60 } else { 25 }) { new.push(("join-style-attributes".into(), r.pick(&["no", "some", "all"]).into())); }
    if new.is_empty() { new.push(("list-separator".into(), if val("list-separator").as_deref() == Some("comma") { "space" } else { "comma" }.into())); }
    // joined flags need trimmed paths
    let now = |k: &str, new: &Vec<(String, String)>| new.iter().find(|x| x.0 == k).map_or(on(k), |x| x.1 == "true");
    if now("join-arcto-flags", &new) && !now("trim-paths", &new) { new.retain(|x| x.0 != "join-arcto-flags"); new.push(("join-arcto-flags".into(), "false".into())); }
    let mut out: Vec<String> = args.iter().filter(|a| !new.iter().any(|n| a.starts_with(&format!("--{}=", n.0)))).cloned().collect();
    let new: Vec<String> = new.iter().map(|(k, v)| format!("--{}={}", k, v)).collect();
    out.extend(new.iter().cloned());
    (out, new)
}

#[derive(Debug, Clone, PartialEq)]
enum Val { Str(String), Color([i64; 3]), Mat([f64; 6]), Path(Vec<(u8, Vec<f64>)>), List(Vec<String>, Vec<f64>) }

fn value(name: &str, v: &str) -> Val {
    if matches!(name, "fill" | "stroke" | "color" | "stop-color" | "flood-color" | "lighting-color") {
        if let Some(c) = style::parse_color(v) { return Val::Color([(c[0] * 255.0).round() as i64, (c[1] * 255.0).round() as i64, (c[2] * 255.0).round() as i64]); }
        return Val::Str(v.trim().into());
    }
    if name.ends_with("ransform") { if let Some(m) = geom::parse_transform(v) { return Val::Mat([m.a, m.b, m.c, m.d, m.e, m.f]); } }
    if name == "d" {
        if let Ok(p) = geom::parse_path(v) {
            return Val::Path(p.iter().map(|s| match s {
                Seg::M(p) => (b'M', vec![p.0, p.1]), Seg::L(p) => (b'L', vec![p.0, p.1]), Seg::C(a, b, c) => (b'C', vec![a.0, a.1, b.0, b.1, c.0, c.1]),
                Seg::Q(a, b) => (b'Q', vec![a.0, a.1, b.0, b.1]),
                Seg::A { r, rot, large, sweep, to } => (b'A', vec![r.0, r.1, *rot, *large as u8 as f64, *sweep as u8 as f64, to.0, to.1]), Seg::Z => (b'Z', vec![]),
            }).collect());
        }
        return Val::Str(v.into());
    }
    if matches!(name, "id" | "class" | "xlink:href" | "font-family" | "font") || name.contains(':') || v.contains("url(") { return Val::Str(v.into()); }
    let (t, rest) = crate::mon3::tokens(v);
    if t.is_empty() { return Val::Str(v.into()); }
    let norm = |s: &str| s.replace(',', " ").split_whitespace().collect::<Vec<_>>().join(" ");
    let mut words: Vec<String> = t.iter().map(|x| norm(&x.0)).collect();
    words.push(norm(&rest));
    Val::List(words, t.iter().map(|x| x.1.parse().unwrap_or(f64::NAN)).collect())
}

/// rounding of the writer: relative coordinates accumulate it
fn close(a: f64, b: f64) -> bool { a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= 1e-9 * a.abs().max(b.abs()).max(1.0) }
fn same(a: &Val, b: &Val, scale: f64) -> bool {
    match (a, b) {
        (Val::Mat(x), Val::Mat(y)) => x.iter().zip(y).all(|(p, q)| close(*p, *q) || (p - q).abs() < 1e-7 * x.iter().fold(1.0, |m: f64, v| m.max(v.abs()))),
        (Val::Path(x), Val::Path(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| p.0 == q.0 && p.1.iter().zip(&q.1).all(|(u, v)| close(*u, *v) || (u - v).abs() < 1e-9 * scale)),
        (Val::List(w, x), Val::List(v, y)) => w == v && x.len() == y.len() && x.iter().zip(y).all(|(p, q)| p == q),
        _ => a == b,
    }
}
fn show(v: &Option<&Val>) -> String { v.map_or("nothing".into(), |v| trunc(&format!("{:?}", v), 110)) }

fn attrs(d: &Doc, n: usize) -> BTreeMap<String, Val> {
    let svg = !d.svg(n).is_empty();
    let mut m = BTreeMap::new();
    for a in d.attrs(n) {
        if !svg { m.insert(a.name.clone(), Val::Str(a.value.clone())); continue; }
        if a.name != "style" { m.insert(a.name.clone(), value(&a.name, &a.value)); }
    }
    if svg { if let Some(s) = d.attr(n, "style") { for (k, v) in style::parse_decls(s) {
        // only a presentation property means the same in both places
        if style::pid(&k).is_some() { let x = value(&k, &v); m.insert(k, x); } else { m.insert(format!("style:{}", k), Val::Str(v)); }
    } } }
    m
}

/// The children that count: elements, and text (in `text` with its spaces).
fn kids(d: &Doc, n: usize, in_text: bool) -> Vec<(Option<usize>, String)> {
    let mut v: Vec<(Option<usize>, String)> = vec![];
    for &c in d.children(n) {
        if d.is_elem(c) { v.push((Some(c), String::new())); continue; }
        let t = d.text(c).unwrap_or("");
        let t = if in_text { t.to_string() } else { t.split_whitespace().collect::<Vec<_>>().join(" ") };
        if !t.is_empty() { v.push((None, t)); }
    }
    v
}

fn tree(a: &Doc, x: usize, b: &Doc, y: usize, in_text: bool, ev: &mut Ev) -> R {
    if a.name(x) != b.name(y) { return fail("element", format!("<{}> against <{}>", a.name(x), b.name(y))); }
    bump(ev, "spelling.elements", 1);
    let (m, n) = (attrs(a, x), attrs(b, y));
    let mut keys: Vec<&String> = m.keys().chain(n.keys()).collect();
    keys.sort(); keys.dedup();
    for k in keys {
        let (p, q) = (m.get(k), n.get(k));
        bump(ev, "spelling.values", 1);
        let scale = match p { Some(Val::Path(s)) => s.iter().flat_map(|s| s.1.iter()).fold(1.0, |m: f64, v| m.max(v.abs())) * s.len() as f64, _ => 1.0 };
        match (p, q) { (Some(u), Some(v)) if same(u, v, scale) => {} _ => return fail(if k == "d" { "path" } else { "value" }, format!("<{}> {}: {} against {}", a.name(x), k, show(&p), show(&q))) }
    }
    let t = in_text || a.svg(x) == "text";
    let (ka, kb) = (kids(a, x, t), kids(b, y, t));
    if ka.len() != kb.len() { return fail("children", format!("<{}> has {} children or {}", a.name(x), ka.len(), kb.len())); }
    for (u, v) in ka.iter().zip(&kb) {
        match (u.0, v.0) {
            (Some(i), Some(j)) => { let r = tree(a, i, b, j, t, ev); if r != R::Ok { return r; } }
            (None, None) => { bump(ev, "spelling.texts", 1); if u.1 != v.1 { return fail("text", format!("{:?} against {:?} in <{}>", trunc(&u.1, 50), trunc(&v.1, 50), a.name(x))); } }
            _ => return fail("children", format!("an element against a text in <{}>", a.name(x))),
        }
    }
    R::Ok
}

pub fn spelling(c: &Case, s: &str, ev: &mut Ev) -> R {
    let a = match xml::parse(s) { Ok(d) => d, Err(e) => return fail("malformed", e) };
    let mut r = Rng::from(c.seed, "respell", 0);
    for _ in 0..2 {
        let (args, new) = respell(&c.args, &mut r);
        let t = match crate::clean::clean(&c.doc, &args) {
            Out::Ok(t) => t,
            Out::BadArgs(e) => return R::Skip(format!("args: {}", trunc(&e, 60))),
            o => return fail("outcome", format!("cleaned, but not with {}: {:?}", new.join(" "), o)),
        };
        if t != s { for n in &new { bump(ev, &format!("spelling.with {}", n.trim_start_matches('-')), 1); } bump(ev, "spelling.different_outputs", 1); }
        let b = match xml::parse(&t) { Ok(d) => d, Err(e) => return fail("malformed", format!("with {}: {}", new.join(" "), e)) };
        let ca: Vec<&str> = a.comment_list.iter().map(|x| x.2.as_str()).collect();
        let cb: Vec<&str> = b.comment_list.iter().map(|x| x.2.as_str()).collect();
        if ca != cb { return fail("comments", format!("{:?} against {:?} with {}", ca, cb, new.join(" "))); }
        if let R::Fail(k, m) = tree(&a, a.root, &b, b.root, false, ev) { return R::Fail(k, format!("{} (with {})", m, new.join(" "))); }
        if (a.has_decl, a.has_doctype, a.cdata) != (b.has_decl, b.has_doctype, b.cdata) { return fail("prolog", "the declaration, the DTD or CDATA differ"); }
    }
    R::Ok
}
