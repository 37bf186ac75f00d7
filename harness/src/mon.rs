//! Monitors: oracles over one observed execution (input document, options, output).
use std::collections::{BTreeMap, HashMap, HashSet};

use crate::clean::{clean, Out};
use crate::compare::Tol;
use crate::judge::{self, V};
use crate::scene::url_ref;
use crate::xml::{self, Doc};

#[derive(Clone, Debug)]
pub struct Case { pub doc: String, pub args: Vec<String>, pub seed: u64, pub accept: bool }

#[derive(Clone, Debug, PartialEq)]
pub enum R { Ok, Skip(String), Fail(String, String) }

impl R {
    pub fn kind(&self) -> Option<&str> { if let R::Fail(k, _) = self { Some(k) } else { None } }
}

pub type Ev = BTreeMap<String, u64>;
pub fn bump(ev: &mut Ev, k: &str, n: u64) { if n > 0 { *ev.entry(k.to_string()).or_default() += n; } }
pub fn fail(k: &str, m: impl Into<String>) -> R { R::Fail(k.into(), m.into()) }

/// Outcome of the cleaning itself: is there an output to look at?
pub fn accepted(c: &Case, o: &Out) -> R {
    match o {
        Out::Ok(_) => R::Ok,
        Out::Panic(p) => fail("panic", p.clone()),
        Out::ParseErr(e) | Out::CleanErr(e) => {
            // 'currentColor' and 'inherit' of a used element can have several values
            let multi = e.starts_with("failed to resolved attribute") && c.doc.contains("<use") && (c.doc.contains("currentColor") || c.doc.contains("inherit"));
            if c.accept && !multi { fail("rejected", e.clone()) } else { R::Skip(format!("rejected: {}", trunc(e, 50))) }
        }
        Out::BadArgs(e) => R::Skip(format!("args: {}", trunc(e, 60))),
    }
}

pub fn trunc(s: &str, n: usize) -> String { s.chars().take(n).collect() }

pub fn run(name: &str, c: &Case, o: &Out, ev: &mut Ev) -> R {
    if name.starts_with("cli-") { return crate::cliruns::run(name, c, ev); }
    if name == "total" { return total(c, o, ev); }
    if name == "refusal" { return crate::mon3::refusal(c, o, ev); }
    let a = accepted(c, o);
    if a != R::Ok { return a; }
    let s = match o { Out::Ok(s) => s, _ => return R::Ok };
    match name {
        "picture" => picture(c, s, ev),
        "refs" => refs(c, s, ev),
        "wellformed" => wellformed(c, s, ev),
        "reclean" => reclean(c, s, ev),
        "rounding" => crate::mon3::rounding(c, s, ev),
        "lowpic" => crate::mon3::lowpic(c, s, ev),
        "spelling" => crate::mon4::spelling(c, s, ev),
        "determinism" => determinism(c, s, ev),
        _ => crate::mon2::run(name, c, s, ev),
    }
}

/// No panic; one that shows up here is confirmed with the program itself (built without debug assertions).
fn total(c: &Case, o: &Out, ev: &mut Ev) -> R {
    bump(ev, match o { Out::Ok(_) => "total.cleaned", Out::ParseErr(_) => "total.parse_errors", Out::CleanErr(_) => "total.clean_errors", Out::BadArgs(_) => "total.bad_args", Out::Panic(_) => "total.panics" }, 1);
    if let Out::Panic(p) = o {
        return match crate::cliruns::run("cli-total", c, &mut Ev::new()) {
            R::Fail(k, m) => R::Fail(k, format!("{} ({})", m, p)),
            R::Skip(s) => R::Skip(s),
            R::Ok => { bump(ev, "total.debug_assertions_only", 1); R::Skip(format!("debug assertion only: {}", trunc(p, 60))) }
        };
    }
    R::Ok
}

fn picture(c: &Case, s: &str, ev: &mut Ev) -> R {
    match judge::same_picture(&c.doc, s, &Tol::default(), c.seed) {
        V::Pass(st) => {
            bump(ev, "picture.points_probed", st.points);
            bump(ev, "picture.points_painted", st.painted);
            bump(ev, "picture.glyphs_compared", st.glyphs);
            bump(ev, "picture.filters_compared", st.filters);
            bump(ev, "picture.images_compared", st.images);
            R::Ok
        }
        V::Skip(m) => R::Skip(m),
        V::Fail(k, m) => R::Fail(k, m),
    }
}

/// (element, attribute or property, target id)
pub fn references(d: &Doc) -> Vec<(usize, String, String)> {
    let mut out = vec![];
    for n in d.elems() {
        if d.svg(n).is_empty() { continue; }
        for a in d.attrs(n) {
            if a.name == "style" {
                for (k, v) in crate::style::parse_decls(&a.value) { if let Some(i) = url_ref(&v) { out.push((n, k, i.to_string())); } }
            } else if a.name == "xlink:href" {
                if let Some(i) = a.value.strip_prefix('#') { out.push((n, a.name.clone(), i.to_string())); }
            } else if crate::style::pid(&a.name).is_some() {
                if let Some(i) = url_ref(&a.value) { out.push((n, a.name.clone(), i.to_string())); }
            }
        }
    }
    out
}

fn kind_ok(tag: &str, attr: &str, target: &str) -> bool {
    match attr {
        "fill" | "stroke" => matches!(target, "linearGradient" | "radialGradient" | "pattern"),
        "clip-path" => target == "clipPath",
        "mask" => target == "mask",
        "filter" => target == "filter",
        "marker-start" | "marker-mid" | "marker-end" | "marker" => target == "marker",
        "xlink:href" => match tag {
            "linearGradient" | "radialGradient" => matches!(target, "linearGradient" | "radialGradient"),
            "pattern" => target == "pattern",
            "textPath" | "mpath" => target == "path",
            "filter" => target == "filter",
            "use" => matches!(target, "g" | "a" | "svg" | "symbol" | "switch" | "use" | "path" | "rect" | "circle" | "ellipse" | "line" | "polyline" | "polygon" | "text" | "image"),
            _ => true,
        },
        _ => true,
    }
}

/// Every id of the output is unique, every local reference leads to an element of the right kind.
fn is_name(s: &str) -> bool {
    let ok = |c: char| c.is_alphabetic() || c == '_' || c == ':' || !c.is_ascii();
    s.chars().next().map_or(false, ok) && s.chars().all(|c| ok(c) || c.is_ascii_digit() || c == '-' || c == '.')
}

fn refs(c: &Case, s: &str, ev: &mut Ev) -> R {
    let din = match xml::parse(&c.doc) { Ok(d) => d, Err(e) => return R::Skip(format!("input: {}", e)) };
    let d = match xml::parse(s) { Ok(d) => d, Err(e) => return fail("malformed", e) };
    let in_ids = din.ids();
    let in_refs = references(&din);
    if in_refs.iter().any(|(n, a, i)| !(din.svg(*n) == "a" && a == "xlink:href") && in_ids.get(i.as_str()).map_or(true, |t| !kind_ok(din.svg(*n), a, din.svg(*t)))) {
        return R::Skip("input has dangling references".into());
    }
    let mut seen = HashMap::new();
    for n in d.elems() {
        if let Some(id) = d.attr(n, "id") {
            bump(ev, "refs.ids_seen", 1);
            if !is_name(id) && in_ids.keys().all(|k| is_name(k)) { return fail("id-name", format!("id {:?} is not an XML name", id)); }
            if let Some(_) = seen.insert(id.to_string(), n) { return fail("dup-id", format!("id {:?} is used twice", id)); }
        }
    }
    for (n, a, i) in references(&d) {
        bump(ev, "refs.links_followed", 1);
        let tag = d.svg(n);
        match seen.get(&i) {
            None if tag == "a" && a == "xlink:href" => {}
            None => return fail("dangling", format!("{} {}=#{} leads nowhere", tag, a, i)),
            Some(t) => if !kind_ok(tag, &a, d.svg(*t)) { return fail("wrong-target", format!("{} {}=#{} leads to {}", tag, a, i, d.name(*t))); }
        }
    }
    R::Ok
}

const NUMERIC: &[&str] = &["x", "y", "x1", "y1", "x2", "y2", "cx", "cy", "r", "rx", "ry", "fx", "fy", "width", "height", "dx", "dy", "d", "points", "transform", "gradientTransform",
    "patternTransform", "viewBox", "offset", "opacity", "fill-opacity", "stroke-opacity", "stop-opacity", "stroke-width", "stroke-dasharray", "stroke-dashoffset", "stroke-miterlimit",
    "stdDeviation", "font-size", "refX", "refY", "markerWidth", "markerHeight"];

/// The output is a well-formed, namespace-well-formed SVG document without broken numbers.
fn wellformed(c: &Case, s: &str, ev: &mut Ev) -> R {
    let din = match xml::parse(&c.doc) { Ok(d) => d, Err(e) => return R::Skip(format!("input: {}", e)) };
    let d = match xml::parse(s) { Ok(d) => d, Err(e) => return fail("malformed", e) };
    bump(ev, "wellformed.elements", d.elems().len() as u64);
    let rn = match &d.nodes[d.root].kind { xml::Kind::Elem { name, svg, .. } => (name.clone(), *svg), _ => (String::new(), false) };
    if rn.0 != "svg" { return fail("root", format!("root element is {:?}", rn.0)); }
    if !din.svg(din.root).is_empty() && !rn.1 { return fail("namespace", "the root element lost the SVG namespace"); }
    for n in d.elems() {
        for a in d.attrs(n) {
            bump(ev, "wellformed.attributes", 1);
            if NUMERIC.contains(&a.name.as_str()) {
                let l = a.value.to_ascii_lowercase();
                if l.contains("nan") || l.contains("inf") { return fail("number", format!("{}=\"{}\"", a.name, trunc(&a.value, 60))); }
                if a.name == "d" && crate::geom::parse_path(&a.value).is_err() { return fail("path-data", format!("d=\"{}\"", trunc(&a.value, 80))); }
                if a.name.ends_with("ransform") && crate::geom::parse_transform(&a.value).is_none() { return fail("transform", format!("{}=\"{}\"", a.name, trunc(&a.value, 80))); }
            }
        }
    }
    R::Ok
}

/// The output is accepted by the cleaner again (as '--multipass' requires), shows the same picture and does not explode.
fn reclean(c: &Case, s: &str, ev: &mut Ev) -> R {
    match clean(s, &c.args) {
        Out::Ok(s2) => {
            bump(ev, "reclean.second_passes", 1);
            if s2 == s { bump(ev, "reclean.fixpoints", 1); }
            match judge::same_picture(&c.doc, &s2, &Tol { r: 0.016, ..Tol::default() }, c.seed) {
                V::Fail(k, m) => {
                    if matches!(judge::same_picture(&c.doc, s, &Tol::default(), c.seed), V::Fail(..)) { return R::Skip("first pass".into()); }
                    R::Fail(format!("second-pass {}", k), m)
                }
                V::Skip(m) => R::Skip(m),
                V::Pass(st) => { bump(ev, "reclean.points_probed", st.points); R::Ok }
            }
        }
        Out::Panic(p) => fail("second-pass panic", p),
        Out::ParseErr(e) | Out::CleanErr(e) => {
            let multi = e.starts_with("failed to resolved attribute") && c.doc.contains("<use");
            if multi { return R::Skip("rejected".into()); }
            fail("second-pass rejected", e)
        }
        Out::BadArgs(e) => R::Skip(e),
    }
}

fn determinism(c: &Case, s: &str, ev: &mut Ev) -> R {
    for _ in 0..2 {
        bump(ev, "determinism.repeats", 1);
        match clean(&c.doc, &c.args) {
            Out::Ok(t) if t == s => {}
            Out::Ok(t) => {
                let k = s.bytes().zip(t.bytes()).take_while(|(a, b)| a == b).count();
                return fail("nondeterministic", format!("outputs of the same input differ at byte {}: {:?} / {:?}", k, trunc(&s[floor(s, k)..], 40), trunc(&t[floor(&t, k)..], 40)));
            }
            o => return fail("nondeterministic", format!("second run: {:?}", o)),
        }
    }
    R::Ok
}
fn floor(s: &str, mut k: usize) -> usize { while k > 0 && !s.is_char_boundary(k) { k -= 1; } k.min(s.len()) }

/// A signature of what the cleaning changed: which element and attribute names became rarer or more frequent.
pub fn effect(a: &Doc, b: &Doc) -> (u64, Vec<String>) {
    let f = |d: &Doc| {
        let mut m: HashMap<String, i64> = HashMap::new();
        for n in d.elems() {
            *m.entry(format!("<{}", d.name(n))).or_default() += 1;
            for x in d.attrs(n) { *m.entry(x.name.clone()).or_default() += 1; }
        }
        m
    };
    let (x, y) = (f(a), f(b));
    let keys: HashSet<&String> = x.keys().chain(y.keys()).collect();
    let mut v: Vec<String> = keys.into_iter().filter_map(|k| {
        let dlt = y.get(k).unwrap_or(&0) - x.get(k).unwrap_or(&0);
        if dlt == 0 { None } else { Some(format!("{}{}", if dlt > 0 { '+' } else { '-' }, k)) }
    }).collect();
    v.sort();
    (hash(&v.join(" ")), v)
}

pub fn hash(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3); h ^= h >> 29; }
    h
}
