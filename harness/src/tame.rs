//! Documents that no grammar would write, but that parse: the tree is mutated, every value stays a valid one of its attribute.
use crate::gen::{self, Ch, El};
use crate::mon::Case;
use crate::profiles;
use crate::rng::Rng;

const WRAP: &[&str] = &["g", "g", "g", "a", "svg", "symbol", "defs", "clipPath", "mask", "pattern", "marker", "switch", "text", "tspan", "filter", "linearGradient", "style", "title", "use", "rect"];
const WRAP_SOFT: &[&str] = &["g", "g", "g", "a", "svg", "symbol", "defs", "switch", "g", "clipPath", "mask", "pattern", "marker"];
const LEN_ATTRS: &[&str] = &["x", "y", "width", "height", "cx", "cy", "r", "rx", "ry", "x1", "y1", "x2", "y2", "fx", "fy", "dx", "dy", "stroke-width", "stroke-dashoffset", "markerWidth", "markerHeight", "refX", "refY"];
const LENS: &[&str] = &["0", "0", "1", "-1", "0.001", "-0.5", "100%", "50%", "1em", "2mm", "7", "40", "1e3", "0.0000001", "-0"];

fn count(e: &El) -> usize { let mut n = 0; e.walk(&mut |_| n += 1); n }
fn with<T>(e: &mut El, mut k: usize, f: &mut dyn FnMut(&mut El) -> T) -> Option<T> {
    fn go<T>(e: &mut El, k: &mut usize, f: &mut dyn FnMut(&mut El) -> T) -> Option<T> {
        if *k == 0 { return Some(f(e)); }
        *k -= 1;
        for c in &mut e.ch { if let Ch::E(x) = c { if let Some(r) = go(x, k, f) { return Some(r); } } }
        None
    }
    go(e, &mut k, f)
}
/// Takes a child element out of a random place.
fn take(root: &mut El, r: &mut Rng) -> Option<El> {
    let n = count(root);
    for _ in 0..10 {
        let k = r.n(n);
        let seed = r.n(1 << 20);
        let x = with(root, k, &mut |e| {
            let v: Vec<usize> = (0..e.ch.len()).filter(|i| matches!(e.ch[*i], Ch::E(ref x) if x.name != "style")).collect();
            if v.is_empty() { return None; }
            match e.ch.remove(v[seed % v.len()]) { Ch::E(x) => Some(x), _ => None }
        });
        if let Some(Some(x)) = x { return Some(x); }
    }
    None
}
fn put(root: &mut El, r: &mut Rng, x: El, wild: bool) {
    let n = count(root);
    let (mut k, p) = (r.n(n), r.n(1000));
    if !wild { for _ in 0..9 { if !matches!(with(root, k, &mut |e| e.name.clone()).unwrap().as_str(), "style" | "title" | "desc" | "metadata") { break; } k = r.n(n); } }
    let mut x = Some(x);
    with(root, k, &mut |e| { let p = p % (e.ch.len() + 1); e.ch.insert(p, Ch::E(x.take().unwrap())); });
}
fn ids(root: &El) -> Vec<String> { let mut v = vec![]; root.walk(&mut |e| if let Some(i) = e.get("id") { v.push(i.to_string()) }); v }
/// Whether an attribute means something on an element, as far as the document shows.
fn fits(root: &El, el: &str, a: &str, wild: bool) -> bool {
    if wild || crate::style::PROPS.iter().any(|p| p.0 == a) || matches!(a, "style" | "class" | "transform" | "xml:space") { return true; }
    let mut f = false;
    root.walk(&mut |e| if e.name == el && e.has(a) { f = true });
    f
}
fn all(root: &El) -> Vec<(String, String)> { let mut v = vec![]; root.walk(&mut |e| for a in &e.at { if a.0 != "id" && !a.0.starts_with("xmlns") { v.push(a.clone()) } }); v }

fn strip_ids(e: &mut El) { e.walk_mut(&mut |x| x.del("id")); }

fn op(root: &mut El, r: &mut Rng, wild: bool) {
    let n = count(root);
    match r.n(14) {
        0 | 1 => { if let Some(x) = take(root, r) { put(root, r, x, wild); } } // move
        2 => { take(root, r); } // delete
        3 => { // duplicate
            let mut c = root.clone();
            if let Some(mut x) = take(&mut c, r) { if n + count(&x) < 300 { if !wild || r.p(90) { strip_ids(&mut x); } put(root, r, x, wild); } }
        }
        4 => { // wrap
            let t = r.pick(if wild { WRAP } else { WRAP_SOFT });
            if let Some(x) = take(root, r) { let mut w = El::new(t); if r.p(20) { w.set("id", format!("w{}", r.n(4000))); } w.push(x); put(root, r, w, wild); }
        }
        5 => { // unwrap
            if let Some(x) = take(root, r) { for c in x.ch { if let Ch::E(y) = c { put(root, r, y, wild); } } }
        }
        6 => { // swap two
            if let (Some(a), Some(b)) = (take(root, r), take(root, r)) { put(root, r, a, wild); put(root, r, b, wild); }
        }
        7 | 8 => { // an attribute of somewhere else
            let v = all(root);
            if !v.is_empty() { let (k, a) = (r.n(n), r.pickv(&v)); let old = root.clone(); with(root, k, &mut |e| if fits(&old, &e.name, &a.0, wild) { e.set(&a.0, a.1.clone()) }); }
        }
        9 => { // the value of the same attribute somewhere else
            let v = all(root);
            if !v.is_empty() {
                let a = r.pickv(&v);
                let of: Vec<&(String, String)> = v.iter().filter(|x| x.0 == a.0).collect();
                let w = of[r.n(of.len())].1.clone();
                let k = r.n(of.len());
                let mut i = 0;
                root.walk_mut(&mut |e| if e.has(&a.0) { if i == k { e.set(&a.0, w.clone()); } i += 1; });
            }
        }
        10 => { let (k, p) = (r.n(n), r.n(1000)); with(root, k, &mut |e| if !e.at.is_empty() { let i = p % e.at.len(); if !e.at[i].0.starts_with("xmlns") { e.at.remove(i); } }); }
        11 => { // a reference to somewhere
            let v = ids(root);
            if !v.is_empty() {
                let (k, i) = (r.n(n), r.pickv(&v));
                let f = r.n(8);
                with(root, k, &mut |e| match f {
                    0 | 1 | 2 => if e.has("xlink:href") && e.get("xlink:href").unwrap().starts_with('#') || wild { e.set("xlink:href", format!("#{}", i)) },
                    3 => e.set("fill", format!("url(#{})", i)),
                    4 => e.set("clip-path", format!("url(#{})", i)),
                    5 => e.set("mask", format!("url(#{})", i)),
                    6 => e.set("filter", format!("url(#{})", i)),
                    _ => e.set(if i.len() % 2 == 0 { "marker-end" } else { "stroke" }, format!("url(#{})", i)),
                });
            }
        }
        12 => { // a number
            let v: Vec<(String, String)> = all(root).into_iter().filter(|a| a.1.parse::<f64>().is_ok() && !a.0.contains("opacity") && a.0 != "offset" && (wild || LEN_ATTRS.contains(&a.0.as_str()))).collect();
            if !v.is_empty() {
                let (a, w) = (r.pickv(&v), r.pick(if wild { LENS } else { &LENS[..12] }));
                let k = r.n(v.iter().filter(|x| x.0 == a.0).count());
                let mut i = 0;
                root.walk_mut(&mut |e| if e.has(&a.0) { if i == k && e.get(&a.0).unwrap().parse::<f64>().is_ok() { e.set(&a.0, w); } i += 1; });
            }
        }
        _ => { // all attributes of another element
            let (k, l) = (r.n(n), r.n(n));
            let at = with(root, k, &mut |e| e.at.clone()).unwrap();
            let old = root.clone();
            with(root, l, &mut |e| for a in &at { if fits(&old, &e.name, &a.0, wild) && a.0 != "id" && !a.0.starts_with("xmlns") && !e.has(&a.0) { e.set(&a.0, a.1.clone()) } });
        }
    }
}

fn e_fe(n: &str) -> bool { n.starts_with("fe") }
fn doc(r: &mut Rng, wild: bool, max: usize) -> String {
    let name = r.pick(profiles::NAMES);
    doc_of(name, r, wild, max)
}
/// A document of the profile, bent a little.
pub fn bent_doc(name: &str, r: &mut Rng) -> String { doc_of(name, r, false, 3) }

fn doc_of(name: &str, r: &mut Rng, wild: bool, max: usize) -> String {
    let p = profiles::get(name, r);
    let mut root = gen::G::new(r, p).document();
    for _ in 0..1 + r.n(max) { op(&mut root, r, wild); }
    // K4, K5: texts after elements
    if !wild {
        root.walk_mut(&mut |e| if e.name == "switch" { e.ch.retain(|c| match *c { Ch::E(ref x) => !matches!(x.name.as_str(), "defs" | "symbol" | "clipPath" | "mask" | "pattern" | "marker" | "filter" | "linearGradient" | "radialGradient" | "stop" | "font" | "view" | "style" | "cursor" | "color-profile") && !x.name.starts_with("fe") && !x.has("xmlns"), _ => true }) });
        root.walk_mut(&mut |e| { let fe = e.name == "filter" || e.name.starts_with("fe"); let gr = e.name.ends_with("Gradient"); if fe || gr { e.ch.retain(|c| match *c { Ch::E(ref x) => if fe { x.name.starts_with("fe") } else { x.name == "stop" }, _ => true }); } });
        // attributes that do not apply and contents of a wrong kind
        root.walk_mut(&mut |e| if e.name.ends_with("Gradient") { e.at.retain(|a| !matches!(a.0.as_str(), "clip-path" | "mask" | "filter" | "fill" | "stroke") && !a.0.starts_with("marker")) });
        root.walk_mut(&mut |e| { let keep = matches!(e.name.as_str(), "svg" | "g" | "defs" | "font"); let href = e.name == "pattern" && e.has("xlink:href"); e.ch.retain(|c| match *c { Ch::E(ref x) => (keep || !x.name.starts_with("font")) && !(href && x.name == "pattern"), _ => true }); });
        // K21: a reference that is overridden by a style
        let mut css = false;
        root.walk(&mut |e| css |= e.name == "style");
        let css_refs = { let mut f = false; root.walk(&mut |e| f |= e.name == "style" && e.ch.iter().any(|c| match *c { Ch::T(ref t) | Ch::Raw(ref t) => t.contains("url("), _ => false })); f };
        root.walk_mut(&mut |e| { if css_refs { e.at.retain(|a| a.0 != "style"); } let st = e.get("style").unwrap_or("").to_string(); e.at.retain(|a| !(a.1.trim_start().starts_with("url(") && a.0 != "style" && (css || st.contains(&a.0)))); });
        // a broken reference of an element to which it does not apply
        root.walk_mut(&mut |e| if matches!(e.name.as_str(), "tspan" | "tref" | "textPath" | "stop") || e.name.starts_with("fe") { e.at.retain(|a| a.0 != "filter" && a.0 != "style" && !(e_fe(&e.name) && (a.0 == "dx" || a.0 == "dy") && a.1.trim().contains(|c: char| c == ' ' || c == ','))) });
        // K9
        root.walk_mut(&mut |e| if matches!(e.name.as_str(), "style" | "title" | "desc" | "metadata") { e.at.retain(|a| a.0 == "type" || a.0 == "xml:space") });
        root.walk_mut(&mut |e| { let f = e.name == "font"; if f || e.name.starts_with("font-face") || e.name.ends_with("glyph") { e.ch.retain(|c| match *c { Ch::E(ref x) => x.name.starts_with("font-face") || f && (x.name.ends_with("glyph") || x.name.ends_with("kern")), _ => true }); } });
        // what can't have a content
        root.walk_mut(&mut |e| if matches!(e.name.as_str(), "path" | "rect" | "circle" | "ellipse" | "line" | "polyline" | "polygon" | "image" | "use" | "stop" | "tref") { e.ch.clear() });
        root.walk_mut(&mut |e| if matches!(e.name.as_str(), "image" | "a") { if e.get("xlink:href").map_or(false, |h| h.starts_with('#')) { e.set("xlink:href", "a.png"); } });
        root.walk_mut(&mut |e| if matches!(e.name.as_str(), "text" | "tspan" | "textPath" | "tref") { e.ch.retain(|c| match *c { Ch::E(ref x) => matches!(x.name.as_str(), "tspan" | "tref" | "textPath" | "a" | "title"), _ => true }) });
        root.walk_mut(&mut |e| for c in &mut e.ch { if let Ch::T(ref mut t) = *c { *t = t.replace('&', "+").replace('<', "-").replace('>', "-"); *t = t.split_whitespace().collect::<Vec<_>>().join(" "); } });
    }
    gen::serialize(&root, r, true)
}

pub fn tame(r: &mut Rng) -> Case {
    let doc = doc(r, true, 12);
    Case { doc, args: crate::args::gen(if r.p(40) { "default" } else if r.p(50) { "rand" } else { "nodef" }, r), seed: r.u64() | 1, accept: false }
}
/// Few mutations that keep the meaning of a document within the static language.
pub fn bent(r: &mut Rng) -> Case {
    let doc = doc(r, false, 3);
    Case { doc, args: crate::args::gen(if r.p(50) { "default" } else { "rand" }, r), seed: r.u64() | 1, accept: false }
}
