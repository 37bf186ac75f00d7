//! Monitors of promises, isolation, lexical options and precision.
use std::collections::{BTreeMap, HashMap, HashSet};

use crate::clean::{clean, Out};
use crate::mon::{bump, fail, references, trunc, Case, Ev, R};
use crate::opts::Opts;
use crate::style;
use crate::xml::{self, Doc, Kind};

pub fn run(name: &str, c: &Case, s: &str, ev: &mut Ev) -> R {
    match name {
        "promises" => promises(c, s, ev),
        "isolation" => isolation(c, s, ev),
        "baseline" => baseline(c, s, ev),
        _ => R::Skip(format!("unknown monitor {}", name)),
    }
}

pub const SVG_ELEMS: &[&str] = &["a", "altGlyph", "altGlyphDef", "altGlyphItem", "animate", "animateColor", "animateMotion", "animateTransform", "circle", "clipPath", "color-profile", "cursor",
    "defs", "desc", "ellipse", "feBlend", "feColorMatrix", "feComponentTransfer", "feComposite", "feConvolveMatrix", "feDiffuseLighting", "feDisplacementMap", "feDistantLight", "feFlood",
    "feFuncA", "feFuncB", "feFuncG", "feFuncR", "feGaussianBlur", "feImage", "feMerge", "feMergeNode", "feMorphology", "feOffset", "fePointLight", "feSpecularLighting", "feSpotLight",
    "feTile", "feTurbulence", "filter", "font", "font-face", "font-face-format", "font-face-name", "font-face-src", "font-face-uri", "foreignObject", "g", "glyph", "glyphRef", "hkern",
    "image", "line", "linearGradient", "marker", "mask", "metadata", "missing-glyph", "mpath", "path", "pattern", "polygon", "polyline", "radialGradient", "rect", "script", "set", "stop",
    "style", "svg", "switch", "symbol", "text", "textPath", "title", "tref", "tspan", "use", "view", "vkern"];

const REFERENCED: &[&str] = &["altGlyphDef", "clipPath", "cursor", "filter", "linearGradient", "marker", "mask", "pattern", "radialGradient", "symbol"];

/// attribute map of an element with the style attribute expanded
pub fn expanded(d: &Doc, n: usize) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    for a in d.attrs(n) { if a.name != "style" { m.insert(a.name.clone(), a.value.clone()); } }
    if let Some(s) = d.attr(n, "style") { for (k, v) in style::parse_decls(s) { m.insert(k, v); } }
    m
}

fn em_units(s: &str) -> bool {
    let b = s.as_bytes();
    b.windows(3).any(|w| (w[0].is_ascii_digit() || w[0] == b'.') && w[1] == b'e' && (w[2] == b'm' || w[2] == b'x'))
}

/// The effect that the documentation of every enabled option promises is in the output.
fn promises(c: &Case, s: &str, ev: &mut Ev) -> R {
    let o = Opts::new(&c.args);
    let din = match xml::parse(&c.doc) { Ok(d) => d, Err(e) => return R::Skip(format!("input: {}", e)) };
    let d = match xml::parse(s) { Ok(d) => d, Err(e) => return fail("malformed", e) };
    let els = d.elems();
    let refs = references(&d);
    let used: HashSet<&str> = refs.iter().map(|r| r.2.as_str()).collect();
    let mut checked: Vec<&str> = vec![];
    macro_rules! viol { ($opt:expr, $($a:tt)*) => { return fail(concat!("promise ", $opt), format!($($a)*)) } }
    macro_rules! on { ($opt:expr) => { if o.on($opt) { checked.push($opt); true } else { false } } }
    let names: Vec<&str> = els.iter().map(|&n| d.name(n)).collect();
    let only = |allowed: &[&str]| o.enabled().iter().all(|f| allowed.contains(f));

    if on!("remove-comments") && d.comments > 0 { viol!("remove-comments", "{} comments left: {:?}", d.comments, d.comment_list.first()); }
    if on!("remove-declarations") && (d.has_decl || d.has_doctype || d.pis > 0) { viol!("remove-declarations", "declaration left: xml {} doctype {} pis {:?}", d.has_decl, d.has_doctype, d.pi_list); }
    for (opt, tag) in [("remove-title", "title"), ("remove-desc", "desc"), ("remove-metadata", "metadata")] {
        if o.on(opt) {
            checked.push(opt);
            if let Some(k) = names.iter().position(|n| *n == tag) { return fail(&format!("promise {}", opt), format!("element {} left", d.name(els[k]))); }
        }
    }
    if on!("remove-nonsvg-elements") {
        for &n in &els { if !SVG_ELEMS.contains(&d.svg(n)) { viol!("remove-nonsvg-elements", "element {:?} left", d.name(n)); } }
    }
    if on!("remove-nonsvg-attributes") {
        for &n in &els {
            for a in d.attrs(n) {
                let k = a.name.as_str();
                let pre = k.split_once(':').map(|x| x.0);
                let foreign = match pre { Some("xml") | Some("xlink") => false, Some("xmlns") => !matches!(k, "xmlns:xlink" | "xmlns:svg"), Some(_) => true, None => k.starts_with("data-") || k.starts_with("aria-") || k == "role" };
                if foreign && d.svg(n) != "" { viol!("remove-nonsvg-attributes", "attribute {:?} of {} left", k, d.name(n)); }
            }
        }
    }
    if on!("remove-version") { for k in ["version", "baseProfile"] { if d.attr(d.root, k).is_some() { viol!("remove-version", "attribute {:?} left", k); } } }
    if on!("remove-unreferenced-ids") {
        for &n in &els {
            if let Some(i) = d.attr(n, "id") { if !used.contains(i) && d.svg(n) != "" { viol!("remove-unreferenced-ids", "id {:?} of {} is not referenced", i, d.name(n)); } }
        }
    }
    if on!("trim-ids") {
        let ids: Vec<&str> = els.iter().filter_map(|&n| d.attr(n, "id").filter(|_| d.svg(n) != "")).collect();
        let max = if ids.len() <= 52 { 1 } else if ids.len() <= 52 + 52 * 62 { 2 } else { 3 };
        for i in ids { if i.len() > max || !i.bytes().all(|b| b.is_ascii_alphanumeric()) || i.as_bytes()[0].is_ascii_digit() { viol!("trim-ids", "id {:?}", i); } }
    }
    if on!("remove-xmlns-xlink-attribute") {
        let uses = els.iter().any(|&n| d.attrs(n).iter().any(|a| a.name.starts_with("xlink:")));
        if !uses && d.attr(d.root, "xmlns:xlink").is_some() { viol!("remove-xmlns-xlink-attribute", "xmlns:xlink is declared, but not used"); }
    }
    // defs
    if o.on("remove-unused-defs") && only(&["remove-unused-defs", "remove-comments", "remove-title", "remove-desc", "remove-metadata", "remove-nonsvg-elements", "remove-nonsvg-attributes", "remove-declarations"]) {
        checked.push("remove-unused-defs");
        for &n in &els {
            let p = match d.parent(n) { Some(p) => p, None => continue };
            if d.svg(p) == "defs" && d.svg(n) != "" && !matches!(d.svg(n), "font" | "font-face") && d.attr(n, "id").map_or(true, |i| !used.contains(i)) {
                viol!("remove-unused-defs", "{} in defs is not used", d.name(n));
            }
        }
    }
    for &n in &els {
        if d.svg(n) == "defs" && d.children(n).is_empty() && !d.comment_list.iter().any(|x| x.0 == Some(n)) { viol!("defs", "an empty defs element is left"); }
        if let Some(t) = d.attr(n, "transform") { if crate::gen::identity(Some(t)) { viol!("transform", "an identity transform is left: {:?}", t); } }
    }
    if on!("ungroup-defs") {
        for &n in &els { if d.svg(n) == "defs" && !d.comment_list.iter().any(|x| x.0 == Some(n)) && d.children(n).iter().all(|&c| REFERENCED.contains(&d.svg(c))) { viol!("ungroup-defs", "defs contains only referenced elements"); } }
    }
    if on!("ungroup-groups") {
        for &n in &els {
            if d.svg(n) != "g" { continue; }
            let p = match d.parent(n) { Some(p) => p, None => continue };
            let filt = c.doc.contains("filter");
            let id_used = d.attr(n, "id").map_or(false, |i| used.contains(i));
            if matches!(d.svg(p), "switch" | "clipPath" | "") || id_used { continue; }
            let comment = d.comment_list.iter().any(|x| x.0 == Some(n));
            if d.children(n).is_empty() && !comment && !filt { viol!("ungroup-groups", "an empty group is left"); }
            if d.attrs(n).is_empty() && !o.on("remove-default-attributes") && !o.on("group-by-style") { viol!("ungroup-groups", "a group without attributes is left"); }
        }
    }
    // path data and shapes
    if on!("convert-shapes") {
        for &n in &els { if matches!(d.svg(n), "polyline" | "polygon") && d.attr(n, "points").map_or(false, |p| crate::scene::numlist(p).len() >= 4) { viol!("convert-shapes", "{} is left", d.name(n)); } }
        for &n in &els { if d.svg(n) == "line" && ["x1", "y1", "x2", "y2"].iter().all(|k| d.attr(n, k).map_or(true, |v| v.trim().parse::<f64>().is_ok())) { viol!("convert-shapes", "line is left"); } }
    }
    for &n in &els {
        let p = match d.attr(n, "d") { Some(p) if matches!(d.svg(n), "path" | "glyph") => p, _ => continue };
        let cmds: Vec<char> = p.chars().filter(|c| c.is_ascii_alphabetic() && *c != 'e' && *c != 'E').collect();
        if on!("paths-to-relative") && d.svg(n) == "path" { if let Some(x) = cmds.iter().skip(1).find(|x| x.is_ascii_uppercase()) { viol!("paths-to-relative", "segment {} in {:?}", x, trunc(p, 80)); } }
        if on!("use-implicit-cmds") && o.on("remove-dupl-cmd-in-paths") && false { }
        if on!("remove-dupl-cmd-in-paths") { if let Some(w) = cmds.windows(2).find(|w| w[0] == w[1] && !matches!(w[0], 'm' | 'M' | 'z' | 'Z')) { viol!("remove-dupl-cmd-in-paths", "command {} is repeated in {:?}", w[0], trunc(p, 80)); } }
        if on!("trim-paths") && !p.contains(['a', 'A']) {
            let b: Vec<char> = p.chars().collect();
            if b.windows(2).any(|w| (w[0] == ' ' || w[0] == ',') && (w[1] == '-' || w[1].is_ascii_alphabetic()) || w[0].is_ascii_alphabetic() && w[0] != 'e' && w[1] == ' ') { viol!("trim-paths", "needless space in {:?}", trunc(p, 80)); }
        }
    }
    // colours
    for &n in &els {
        for (k, v) in expanded(&d, n) {
            if !matches!(k.as_str(), "fill" | "stroke" | "stop-color" | "flood-color" | "lighting-color") { continue; }
            let b = v.as_bytes();
            if b.first() != Some(&b'#') { continue; }
            let short = b.len() == 7 && b[1] == b[2] && b[3] == b[4] && b[5] == b[6];
            if o.on("trim-colors") && short { viol!("trim-colors", "{}={:?}", k, v); }
        }
    }
    checked.push("trim-colors");
    // style
    for &n in &els {
        if d.svg(n) == "" || d.svg(n) == "font-face" { continue; }
        let pres = d.attrs(n).iter().filter(|a| style::pid(&a.name).is_some() && !a.value.contains(['"', '\'', '&', '<'])).count();
        match o.join() {
            "no" => if d.attr(n, "style").is_some() { viol!("join-style-attributes", "style attribute on {}", d.name(n)); },
            "all" => if pres > 0 { viol!("join-style-attributes", "{} presentation attributes on {}", pres, d.name(n)); },
            _ => if pres > 5 { viol!("join-style-attributes", "{} presentation attributes on {}", pres, d.name(n)); },
        }
    }
    checked.push("join-style-attributes");
    // classes and CSS are resolved
    if names.iter().any(|n| *n == "style") && d.elems().iter().any(|&n| d.svg(n) == "style") && !din.elems().is_empty() { viol!("style", "a style element is left"); }
    if on!("remove-unresolved-classes") && !o.nodef { for &n in &els { if d.svg(n) != "" && d.attr(n, "class").is_some() { viol!("remove-unresolved-classes", "class={:?}", d.attr(n, "class")); } } }
    // transforms
    if on!("simplify-transforms") {
        for &n in &els {
            for k in ["transform", "gradientTransform", "patternTransform"] {
                if let Some(t) = d.attr(n, k) {
                    if let Some(m) = t.strip_prefix("matrix(") {
                        let v = crate::scene::numlist(m.trim_end_matches(')'));
                        if v.len() == 6 && (v[0] == 1.0 && v[1] == 0.0 && v[2] == 0.0 && v[3] == 1.0 || v[1] == 0.0 && v[2] == 0.0 && v[4] == 0.0 && v[5] == 0.0) { viol!("simplify-transforms", "{}={:?}", k, t); }
                    }
                }
            }
        }
    }
    // attributes with default values
    if on!("remove-default-attributes") && !din.elems().iter().any(|&n| din.svg(n) == "use") {
        for &n in &els {
            let m = expanded(&d, n);
            for (k, v) in [("opacity", "1"), ("stop-opacity", "1"), ("clip-path", "none"), ("mask", "none"), ("filter", "none")] {
                // 'use' and linked elements can be overridden on purpose
                let mut q = d.parent(n);
                let mut over = false;
                while let Some(x) = q { over |= expanded(&d, x).contains_key(k); q = d.parent(x); }
                if m.get(k).map(|x| x.as_str()) == Some(v) && !over && d.svg(n) != "" { viol!("remove-default-attributes", "{}={:?} on {}", k, v, d.name(n)); }
            }
        }
    }
    if on!("remove-needless-attributes") {
        for &n in &els {
            let m = expanded(&d, n);
            let t = d.svg(n);
            if t == "" { continue; }
            if m.contains_key("color") { viol!("remove-needless-attributes", "color on {}", t); }
            if m.contains_key("overflow") && !matches!(t, "svg" | "symbol" | "image" | "foreignObject" | "pattern" | "marker") { viol!("remove-needless-attributes", "overflow on {}", t); }
            let other = |l: &[&str]| l.iter().find(|k| m.contains_key(**k)).map(|k| k.to_string());
            let bad = match t {
                "rect" => other(&["cx", "cy", "r", "x1", "y1", "x2", "y2", "points", "d"]),
                "circle" => other(&["x", "y", "width", "height", "rx", "ry", "x1", "y1", "points", "d"]),
                "ellipse" => other(&["x", "y", "width", "height", "r", "x1", "y1", "points", "d"]),
                "line" => other(&["x", "y", "width", "height", "cx", "cy", "r", "points", "d"]),
                "polyline" | "polygon" => other(&["x", "y", "width", "height", "cx", "cy", "r", "x1", "d"]),
                _ => None,
            };
            if let Some(k) = bad { viol!("remove-needless-attributes", "{} on {}", k, t); }
        }
    }
    if on!("remove-text-attributes") {
        let has_text = els.iter().any(|&n| d.children(n).iter().any(|&c| matches!(d.nodes[c].kind, Kind::Text(ref t) if !t.trim().is_empty())));
        let em = em_units(&c.doc) || els.iter().any(|&n| expanded(&d, n).values().any(|a| a.trim().ends_with("em") || a.trim().ends_with("ex")));
        let in_text = din.elems().iter().any(|&n| matches!(din.svg(n), "text" | "tref" | "font-face" | "font"));
        if !has_text && !em && !in_text {
            for &n in &els {
                let m = expanded(&d, n);
                for k in ["font-size", "font-family", "font-weight", "font-style", "text-anchor", "letter-spacing", "text-decoration", "xml:space", "line-height", "writing-mode", "baseline-shift"] {
                    if m.contains_key(k) { viol!("remove-text-attributes", "{} on {} in a document without text", k, d.name(n)); }
                }
            }
        }
    }
    if on!("remove-unused-coordinates") {
        for k in ["x", "y"] { if d.attr(d.root, k).is_some() { viol!("remove-unused-coordinates", "{} on the root element", k); } }
        for &n in &els { if d.svg(n) == "rect" { if let (Some(a), Some(b)) = (d.attr(n, "rx"), d.attr(n, "ry")) { if a == b && !a.ends_with('%') { viol!("remove-unused-coordinates", "rx and ry are both {:?}", a); } } } }
    }
    // duplicates, when nothing later in the pipeline can create or hide them
    for (opt, tag) in [("remove-dupl-lineargradient", "linearGradient"), ("remove-dupl-radialgradient", "radialGradient"), ("remove-dupl-fegaussianblur", "filter")] {
        if !o.on(opt) { continue; }
        if tag != "filter" && !only(&["remove-dupl-lineargradient", "remove-dupl-radialgradient", "remove-dupl-fegaussianblur", "remove-comments", "trim-ids", "remove-nonsvg-elements", "remove-title", "remove-desc"]) { continue; }
        checked.push(opt);
        let mut seen: HashMap<String, usize> = HashMap::new();
        for &n in &els {
            if d.svg(n) != tag { continue; }
            if tag == "filter" && (d.children(n).len() != 1 || d.svg(d.children(n)[0]) != "feGaussianBlur" || d.attr(d.children(n)[0], "in").is_some() || d.attr(d.children(n)[0], "result").is_some() || d.attr(n, "xlink:href").is_some()) { continue; }
            if d.attr(n, "id").map_or(true, |i| !used.contains(i)) { continue; }
            if tag != "filter" && (d.comment_list.iter().any(|x| x.0 == Some(n)) || d.children(n).iter().any(|&c| d.svg(c) != "stop" || d.attr(c, "id").is_some())) { continue; }
            let mut k = String::new();
            key(&d, n, true, &mut k);
            if seen.insert(k, n).is_some() { return fail(&format!("promise {}", opt), format!("two equal {} elements are left", tag)); }
        }
    }
    for k in checked.iter().collect::<HashSet<_>>() { bump(ev, &format!("promises.{}", k), 1); }
    R::Ok
}

/// canonical text of a subtree (ids dropped)
fn key(d: &Doc, n: usize, top: bool, out: &mut String) {
    match &d.nodes[n].kind {
        Kind::Text(t) => { if !t.trim().is_empty() { out.push_str(t); } }
        Kind::Elem { .. } => {
            out.push_str(&format!("<{}", d.name(n)));
            for (k, v) in expanded(d, n) { if !(top && k == "id") { out.push_str(&format!(" {}={}", k, v)); } }
            for &c in d.children(n) { key(d, c, false, out); }
            out.push('>');
        }
    }
}

/// Gives every element an id.
pub fn with_ids(root: &mut crate::gen::El) {
    let mut k = 0;
    // namespaces of foreign content are not kept (known finding K8)
    root.walk_mut(&mut |e| if e.name == "foreignObject" { e.ch.clear(); });
    root.walk_mut(&mut |e| { k += 1; if !e.has("id") { e.set("id", format!("e{}", k)); } });
}

struct Inv { order: Vec<String>, el: HashMap<String, Item>, comments: usize, decl: bool, counts: BTreeMap<&'static str, usize>, noid: usize }
struct Item { tag: String, at: BTreeMap<String, String>, par: String, text: String, defs: bool }

fn inventory(d: &Doc) -> Inv {
    let mut v = Inv { order: vec![], el: HashMap::new(), comments: 0, decl: d.has_decl, counts: BTreeMap::new(), noid: 0 };
    for (par, _, _) in &d.comment_list {
        // comments inside text or style are dropped by the parser
        let t = par.map_or("", |p| d.svg(p));
        if !matches!(t, "text" | "tspan" | "textPath" | "style" | "tref" | "title" | "desc" | "metadata") && (t != "" || par.is_none()) { v.comments += 1; }
    }
    for n in d.elems() {
        let tag = if d.svg(n) == "" { "?" } else { d.svg(n) };
        let cnt = match tag { "title" => "title", "desc" => "desc", "metadata" => "metadata", "?" => "foreign", _ => "" };
        if cnt != "" {
            let inside = d.parent(n).map_or(false, |p| matches!(d.svg(p), "" | "title" | "desc" | "metadata"));
            if !inside { *v.counts.entry(cnt).or_default() += 1; }
            continue;
        }
        let id = match d.attr(n, "id") { Some(i) => i.to_string(), None => { if tag != "defs" { v.noid += 1; } continue } };
        let mut p = d.parent(n);
        let mut pid = String::new();
        let mut defs = false;
        while let Some(q) = p {
            if pid.is_empty() { if let Some(i) = d.attr(q, "id") { pid = i.to_string(); } }
            defs |= d.svg(q) == "defs";
            p = d.parent(q);
        }
        let mut t = String::new();
        if matches!(d.svg(n), "text" | "tspan" | "textPath") { for &c in d.children(n) { if let Kind::Text(x) = &d.nodes[c].kind { t.push_str(x); } } }
        v.order.push(id.clone());
        v.el.insert(id, Item { tag: tag.into(), at: expanded(d, n), par: pid, text: t, defs });
    }
    v
}

const NOISE: &[&str] = &["id", "xmlns", "xmlns:svg", "style"];

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Change { pub kind: &'static str, pub tag: String, pub name: String, pub defs: bool }

/// What happened between two versions of a document whose elements all have ids.
pub fn changes(a: &Doc, b: &Doc) -> BTreeMap<Change, String> {
    let (x, y) = (inventory(a), inventory(b));
    let mut out = BTreeMap::new();
    let mut add = |kind: &'static str, tag: &str, name: &str, defs: bool, m: String| { out.entry(Change { kind, tag: tag.into(), name: name.into(), defs }).or_insert(m); };
    for id in &x.order {
        let e = &x.el[id];
        let f = match y.el.get(id) { Some(f) => f, None => { add("lost", &e.tag, "", e.defs, id.clone()); continue } };
        if e.tag != f.tag { add("tag", &e.tag, &f.tag, e.defs, id.clone()); }
        if e.par != f.par { add("moved", &e.tag, x.el.get(&e.par).map_or("", |q| q.tag.as_str()), e.defs, format!("{}: {} > {}", id, e.par, f.par)); }
        if e.text != f.text { add("text", &e.tag, "", e.defs, format!("{:?} {:?}", e.text, f.text)); }
        for (k, v) in &e.at {
            if NOISE.contains(&k.as_str()) { continue; }
            match f.at.get(k) {
                None => add("attr-", &e.tag, k, e.defs, format!("{} {}={:?}", id, k, v)),
                Some(w) if w != v => add("attr~", &e.tag, k, e.defs, format!("{} {}={:?} {:?}", id, k, v, w)),
                _ => {}
            }
        }
        for (k, v) in &f.at { if !e.at.contains_key(k) && !NOISE.contains(&k.as_str()) { add("attr+", &e.tag, k, e.defs, format!("{} {}={:?}", id, k, v)); } }
    }
    for id in &y.order { if !x.el.contains_key(id) { add("new", &y.el[id].tag, "", false, id.clone()); } }
    let o1: Vec<&String> = x.order.iter().filter(|i| y.el.contains_key(*i)).collect();
    let o2: Vec<&String> = y.order.iter().filter(|i| x.el.contains_key(*i)).collect();
    if o1 != o2 { add("order", "", "", false, String::new()); }
    let painted = |v: &Inv| v.order.iter().filter(|i| x.el.contains_key(*i) && y.el.contains_key(*i) && !x.el[*i].defs && !y.el[*i].defs && is_drawn(&x.el[*i].tag)).cloned().collect::<Vec<_>>();
    if painted(&x) != painted(&y) { add("paint-order", "", "", false, String::new()); }
    if x.comments > y.comments { add("comment-", "", "", false, format!("{} {}", x.comments, y.comments)); }
    if x.comments < y.comments { add("comment+", "", "", false, format!("{} {}", x.comments, y.comments)); }
    if x.decl != y.decl { add("decl", "", "", false, String::new()); }
    if y.noid > x.noid { add("new", "noid", "", false, String::new()); }
    for k in ["title", "desc", "metadata", "foreign"] {
        let (p, q) = (x.counts.get(k).unwrap_or(&0), y.counts.get(k).unwrap_or(&0));
        if p != q { add("count", k, "", false, format!("{} {}", p, q)); }
    }
    out
}

fn is_drawn(t: &str) -> bool { matches!(t, "path" | "rect" | "circle" | "ellipse" | "line" | "polyline" | "polygon" | "text" | "image" | "use" | "svg" | "a" | "switch") }
const SHAPES: &[&str] = &["path", "rect", "circle", "ellipse", "line", "polyline", "polygon"];
const GRADS: &[&str] = &["linearGradient", "radialGradient"];
const GRAD_GEOM: &[&str] = &["x1", "y1", "x2", "y2", "cx", "cy", "r", "fx", "fy", "gradientTransform", "gradientUnits", "spreadMethod"];
const GEOM: &[&str] = &["x", "y", "width", "height", "x1", "y1", "x2", "y2", "cx", "cy", "r", "rx", "ry", "points"];
const TEXTA: &[&str] = &["alignment-baseline", "baseline-shift", "direction", "dominant-baseline", "font", "font-family", "font-size", "font-size-adjust", "font-stretch", "font-style", "font-variant",
    "font-weight", "glyph-orientation-horizontal", "glyph-orientation-vertical", "kerning", "letter-spacing", "line-height", "text-anchor", "text-decoration", "word-spacing", "writing-mode", "xml:space"];

/// May this option (documented effect) cause this change?
fn governs(opt: &str, c: &Change) -> bool {
    let (k, t, n) = (c.kind, c.tag.as_str(), c.name.as_str());
    let pres = style::pid(n).is_some() || n == "line-height";
    let any = |l: &[&str], x: &str| l.contains(&x);
    match opt {
        "remove-comments" => k == "comment-",
        "remove-declarations" => k == "decl",
        "remove-nonsvg-elements" => k == "count" && t == "foreign" || k == "comment-",
        "remove-title" => k == "count" && t == "title",
        "remove-desc" => k == "count" && t == "desc",
        "remove-metadata" => k == "count" && t == "metadata",
        "remove-unused-defs" => matches!(k, "order" | "comment-" | "count") || matches!(k, "moved" | "lost") && c.defs || k == "lost" && t == "defs",
        "convert-shapes" => any(&["line", "rect", "polyline", "polygon"], t) && (k == "tag" && n == "path" || k == "attr-" && any(GEOM, n) || k == "attr+" && n == "d"),
        "remove-dupl-lineargradient" => k == "attr~" && any(&["fill", "stroke", "xlink:href"], n) || k == "lost" && any(&["linearGradient", "stop"], t) && c.defs || k == "comment-" || k == "count",
        "remove-dupl-radialgradient" => k == "attr~" && any(&["fill", "stroke", "xlink:href"], n) || k == "lost" && any(&["radialGradient", "stop"], t) && c.defs || k == "comment-" || k == "count",
        "remove-dupl-fegaussianblur" => k == "attr~" && n == "filter" || k == "lost" && any(&["filter", "feGaussianBlur"], t) && c.defs || k == "comment-" || k == "count",
        "ungroup-groups" => k == "lost" && t == "g" || k == "moved" && n == "g" || any(&["attr+", "attr~", "attr-"], k) && (pres || n == "transform" || n == "xml:lang" || n == "xml:space" || n.contains(':') || !known_attr(n)) || k == "comment-" || k == "count",
        "ungroup-defs" => k == "lost" && t == "defs" || k == "moved" && n == "defs",
        "group-by-style" => any(&["attr+", "attr~", "attr-"], k) && (pres || n == "transform") || k == "moved" || k == "new" && t == "noid",
        "merge-gradients" => (any(GRADS, t) || t == "stop") && (k == "lost" || k == "moved" || any(&["attr+", "attr-", "attr~"], k) && (any(GRAD_GEOM, n) || n == "xlink:href")) || k == "order" || k == "comment-" || k == "count",
        "regroup-gradient-stops" => (any(GRADS, t) || t == "stop") && (k == "lost" || k == "moved" || k == "new" || n == "xlink:href") || k == "order" || k == "comment-" || k == "count" || k == "new" && t == "noid",
        "remove-invalid-stops" => k == "lost" && t == "stop",
        "remove-invisible-elements" => any(&["lost", "order", "comment-", "count", "moved"], k) || any(&["attr~", "attr+", "attr-"], k) && any(&["fill", "stroke", "fill-opacity", "stroke-opacity", "mask", "clip-path", "filter"], n) || k == "attr-" && n == "xlink:href",
        "resolve-use" => k == "lost" && t == "use" || k == "moved" && n == "defs" || any(&["order", "paint-order", "comment-", "count"], k) || any(&["attr+", "attr~", "attr-"], k) && n != "d" && !any(GEOM, n),
        "remove-version" => k == "attr-" && t == "svg" && any(&["version", "baseProfile"], n),
        "remove-nonsvg-attributes" => k == "attr-" && !known_attr(n),
        "remove-text-attributes" => k == "attr-" && any(TEXTA, n),
        "remove-unused-coordinates" => k == "attr-" && (t == "rect" && n == "ry" || t == "radialGradient" && any(&["fx", "fy"], n) || t == "svg" && any(&["x", "y"], n)),
        "remove-default-attributes" => k == "attr-" && n != "transform" && n != "d" && n != "points" && n != "xlink:href",
        "remove-xmlns-xlink-attribute" => k == "attr-" && t == "svg" && n == "xmlns:xlink",
        "remove-needless-attributes" => k == "attr-" && known_attr(n) && n != "transform" && n != "d" && n != "xlink:href" || any(&["attr~", "attr+"], k) && any(&["fill", "stroke"], n),
        "remove-gradient-attributes" => any(GRADS, t) && n == "gradientUnits",
        "apply-transform-to-gradients" => any(GRADS, t) && any(&["attr+", "attr~", "attr-"], k) && any(GRAD_GEOM, n) && n != "gradientUnits" && n != "spreadMethod",
        "apply-transform-to-shapes" => any(&["rect", "circle", "ellipse", "line"], t) && any(&["attr+", "attr~", "attr-"], k) && (any(GEOM, n) || any(&["transform", "stroke-width", "stroke-dasharray", "stroke-dashoffset"], n)),
        "apply-transform-to-paths" => t == "path" && any(&["attr+", "attr~", "attr-"], k) && any(&["d", "transform", "stroke-width", "stroke-dasharray", "stroke-dashoffset"], n),
        "remove-unresolved-classes" => k == "attr-" && n == "class" || k == "attr~" && n == "class",
        "paths-to-relative" | "remove-unused-segments" | "convert-segments" | "trim-paths" | "join-arcto-flags" | "remove-dupl-cmd-in-paths" | "use-implicit-cmds" => any(&["attr~", "attr-"], k) && n == "d",
        "trim-colors" => k == "attr~" && any(&["fill", "stroke", "color", "stop-color", "flood-color", "lighting-color"], n),
        "simplify-transforms" => k == "attr~" && any(&["transform", "gradientTransform", "patternTransform"], n),
        _ => false,
    }
}

fn known_attr(n: &str) -> bool { !(n.starts_with("data-") || n == "foo" || n.contains(':') && !n.starts_with("xlink:") && !n.starts_with("xml:") && !n.starts_with("xmlns")) && !matches!(n, "xmlns:sodipodi" | "xmlns:inkscape" | "xmlns:rdf" | "xmlns:cc") }

/// With the flags off nothing they govern changes: compares the same document cleaned with nothing and with a few options on.
fn isolation(c: &Case, s: &str, ev: &mut Ev) -> R {
    let o = Opts::new(&c.args);
    if !o.nodef || o.join() != "no" { return R::Skip("options on".into()); }
    let base: Vec<String> = ["--no-defaults", "--join-style-attributes=no", "--indent=none"].iter().map(|s| s.to_string()).collect();
    let b = match clean(&c.doc, &base) { Out::Ok(b) => b, _ => return R::Skip("base run".into()) };
    let (x, y) = match (xml::parse(&b), xml::parse(s)) { (Ok(x), Ok(y)) => (x, y), _ => return R::Skip("output does not parse (C21)".into()) };
    let en = o.enabled();
    for f in &en { bump(ev, &format!("isolation.on.{}", f), 1); }
    for (ch, m) in changes(&x, &y) {
        bump(ev, "isolation.changes_attributed", 1);
        if ch.kind == "attr~" && !ch.name.is_empty() && en.iter().any(|f| governs(f, &Change { kind: "attr+", ..ch.clone() })) && en.iter().any(|f| governs(f, &Change { kind: "attr-", ..ch.clone() })) { continue; }
        if ch.kind == "lost" && ch.tag == "defs" { continue; } // an empty 'defs' is always removed
        // a shape that became a path
        if en.iter().any(|f| *f == "convert-shapes") && matches!(ch.tag.as_str(), "rect" | "line" | "polyline" | "polygon") && en.iter().any(|f| *f == "apply-transform-to-paths" && governs(f, &Change { tag: "path".into(), ..ch.clone() })) { continue; }
        if !en.iter().any(|f| governs(f, &ch)) {
            return fail("isolation", format!("{} {} {} ({}) is governed by none of {:?}", ch.kind, ch.tag, ch.name, trunc(&m, 90), en));
        }
    }
    R::Ok
}

fn canon_value(n: &str, v: &str) -> String {
    if let Some(c) = style::parse_color(v) { return format!("{:?}", c); }
    let l = crate::scene::numlist(v);
    let bare = v.trim().trim_end_matches(|c: char| c.is_ascii_alphabetic() || c == '%');
    if !l.is_empty() && v.bytes().all(|b| b.is_ascii_digit() || b" ,.-+eE".contains(&b)) { return l.iter().map(|x| format!("{:.5}", x + 0.0)).collect::<Vec<_>>().join(" ").replace("-0.00000", "0.00000"); }
    if let Ok(x) = bare.parse::<f64>() { return format!("{:.5}{}", x, v.trim()[bare.len()..].replace("px", "")).replace("-0.00000", "0.00000"); }
    let _ = n;
    // a list of lengths, like '0.75mm 9'
    let toks: Vec<&str> = v.split(|c: char| c == ',' || c.is_whitespace()).filter(|t| !t.is_empty()).collect();
    let lens: Vec<String> = toks.iter().filter_map(|t| {
        let num = t.trim_end_matches(|c: char| c.is_ascii_alphabetic() || c == '%');
        num.parse::<f64>().ok().map(|x| format!("{:.5}{}", x, t[num.len()..].replace("px", "")).replace("-0.00000", "0.00000"))
    }).collect();
    if toks.len() > 1 && lens.len() == toks.len() { return lens.join(" "); }
    v.split_whitespace().collect::<Vec<_>>().join(" ").replace(['"', '\''], "")
}

/// Does the change message name an element whose link points nowhere?  (the DOM drops such links)
fn dangling(x: &Doc, m: &str) -> bool {
    let ids = x.ids();
    ids.get(m.split(' ').next().unwrap_or("")).and_then(|&e| x.attr(e, "xlink:href")).map_or(false, |h| h.strip_prefix('#').map_or(false, |h| !ids.contains_key(h)))
}

/// With everything off only the documented unconditional processing happens.
fn baseline(c: &Case, s: &str, ev: &mut Ev) -> R {
    let (x, y) = match (xml::parse(&c.doc), xml::parse(s)) { (Ok(x), Ok(y)) => (x, y), (_, Err(e)) => return fail("malformed", e), _ => return R::Skip("input".into()) };
    if !Opts::new(&c.args).enabled().is_empty() { return R::Skip("options on".into()); }
    let css = c.doc.contains("<style") || c.doc.contains("class=");
    for (ch, m) in changes(&x, &y) {
        let (k, t, n) = (ch.kind, ch.tag.as_str(), ch.name.as_str());
        bump(ev, &format!("baseline.{}", k), 1);
        let pres = style::pid(n).is_some();
        let refd = REFERENCED.contains(&t);
        let ok = match k {
            "lost" => matches!(t, "defs" | "style"),
            "moved" => refd || n == "defs" || t == "defs",
            "order" => true,
            "text" => true, // white space is preprocessed; the characters are compared by the picture monitor
            "attr+" => pres || t == "svg" && n == "xmlns:xlink" || matches!(t, "rect") && matches!(n, "width" | "height") || GRADS.contains(&t) || t == "stop" && n == "offset",
            "attr-" => (n == "xlink:href" && dangling(&x, &m)) || matches!(n, "transform" | "gradientTransform" | "patternTransform") || pres && (css || c.doc.contains("inherit") || c.doc.contains("currentColor") || n == "font" || n == "marker") || GRADS.contains(&t) && n == "xlink:href"
                || n == "class" || t == "svg" && n.starts_with("xmlns") || t == "rect" && matches!(n, "rx" | "ry") || matches!(t, "polyline" | "polygon") && n == "points" || n == "xml:space",
            "attr~" => {
                let vals = x.ids().get(m.split(' ').next().unwrap_or("")).and_then(|&e| expanded(&x, e).get(n).cloned())
                    .zip(y.ids().get(m.split(' ').next().unwrap_or("")).and_then(|&e| expanded(&y, e).get(n).cloned()));
                match vals {
                    Some((a, b)) => canon_value(n, &a) == canon_value(n, &b) || matches!(n, "transform" | "gradientTransform" | "patternTransform") || matches!(n, "d" | "points")
                        || pres && (css || a.contains("inherit") || a.contains("currentColor") || matches!(n, "marker" | "font")) || GRADS.contains(&t) || t == "stop" || n == "class" || t == "rect" || style::pid(n).is_some() && a.contains("url(") || m.contains('&')
                        || matches!(n, "opacity" | "fill-opacity" | "stroke-opacity" | "flood-opacity" | "stop-opacity" | "letter-spacing" | "word-spacing") || n.contains("href"),
                    None => true,
                }
            }
            "comment-" | "comment+" | "paint-order" | "tag" | "decl" | "count" | "new" => false,
            _ => false,
        };
        if !ok { return fail("baseline", format!("{} {} {} ({})", k, t, n, trunc(&m, 90))); }
    }
    R::Ok
}
