//! Independent CSS cascade / SVG property inheritance.
use crate::xml::Doc;
use std::rc::Rc;

/// (name, inherited, initial value)
pub const PROPS: &[(&str, bool, &str)] = &[
    ("fill", true, "black"), ("fill-opacity", true, "1"), ("fill-rule", true, "nonzero"),
    ("stroke", true, "none"), ("stroke-width", true, "1"), ("stroke-opacity", true, "1"),
    ("stroke-linecap", true, "butt"), ("stroke-linejoin", true, "miter"), ("stroke-miterlimit", true, "4"),
    ("stroke-dasharray", true, "none"), ("stroke-dashoffset", true, "0"),
    ("color", true, "black"), ("clip-rule", true, "nonzero"),
    ("marker-start", true, "none"), ("marker-mid", true, "none"), ("marker-end", true, "none"),
    ("visibility", true, "visible"),
    ("font-family", true, ""), ("font-size", true, "medium"), ("font-style", true, "normal"), ("font-variant", true, "normal"),
    ("font-weight", true, "normal"), ("font-stretch", true, "normal"), ("font-size-adjust", true, "none"),
    ("text-anchor", true, "start"), ("letter-spacing", true, "normal"), ("word-spacing", true, "normal"),
    ("kerning", true, "auto"), ("direction", true, "ltr"), ("writing-mode", true, "lr-tb"),
    ("glyph-orientation-horizontal", true, "0deg"), ("glyph-orientation-vertical", true, "auto"),
    ("image-rendering", true, "auto"), ("shape-rendering", true, "auto"), ("text-rendering", true, "auto"),
    ("color-interpolation", true, "sRGB"), ("color-interpolation-filters", true, "linearRGB"), ("color-rendering", true, "auto"),
    ("cursor", true, "auto"), ("pointer-events", true, "visiblePainted"),
    ("opacity", false, "1"), ("display", false, "inline"), ("clip-path", false, "none"), ("mask", false, "none"),
    ("filter", false, "none"), ("overflow", false, ""), ("clip", false, "auto"), ("enable-background", false, "accumulate"),
    ("stop-color", false, "black"), ("stop-opacity", false, "1"), ("flood-color", false, "black"), ("flood-opacity", false, "1"),
    ("lighting-color", false, "white"), ("text-decoration", false, "none"), ("unicode-bidi", false, "normal"),
    ("baseline-shift", false, "baseline"), ("alignment-baseline", false, "auto"), ("dominant-baseline", false, "auto"),
    ("color-profile", true, "auto"), ("font", true, ""),
];

pub fn pid(name: &str) -> Option<usize> { PROPS.iter().position(|p| p.0 == name) }

#[derive(Clone, Debug)]
pub struct Style { pub v: Vec<Option<Rc<str>>>, pub font_px: f64, pub decor: Rc<str> }

impl Style {
    pub fn root() -> Style { Style { v: vec![None; PROPS.len()], font_px: 16.0, decor: "".into() } }
    pub fn get(&self, name: &str) -> &str {
        let i = match pid(name) { Some(i) => i, None => return "" };
        match &self.v[i] { Some(s) => s, None => PROPS[i].2 }
    }
    pub fn is_set(&self, name: &str) -> bool { pid(name).map_or(false, |i| self.v[i].is_some()) }
}

#[derive(Clone, Debug)]
enum Simple { Any, Tag(String), Id(String), Class(String), Attr(String, char, String), First, Never }
/// compound selectors from left to right, each with the combinator before it
#[derive(Clone, Debug)]
pub struct Rule { sel: Vec<(char, Vec<Simple>)>, decls: Vec<(String, String)>, spec: (u32, u32, u32), order: usize }

pub fn parse_decls(s: &str) -> Vec<(String, String)> {
    let mut out = vec![];
    // split on ';' outside parentheses / quotes
    let mut depth = 0;
    let mut q: Option<char> = None;
    let mut cur = String::new();
    let mut parts = vec![];
    let mut s2 = String::new();
    // strip comments
    let mut rest = s;
    while let Some(i) = rest.find("/*") {
        s2.push_str(&rest[..i]);
        match rest[i + 2..].find("*/") { Some(j) => rest = &rest[i + 2 + j + 2..], None => { rest = ""; } }
    }
    s2.push_str(rest);
    for c in s2.chars() {
        match q {
            Some(k) => { if c == k { q = None } cur.push(c); continue; }
            None => {}
        }
        match c {
            '\'' | '"' => { q = Some(c); cur.push(c) }
            '(' => { depth += 1; cur.push(c) }
            ')' => { depth -= 1; cur.push(c) }
            ';' if depth <= 0 => { parts.push(std::mem::take(&mut cur)) }
            _ => cur.push(c),
        }
    }
    parts.push(cur);
    for p in parts {
        if let Some(i) = p.find(':') {
            out.push((p[..i].trim().to_string(), p[i + 1..].trim().to_string()));
        }
    }
    out
}

pub struct Css { pub rules: Vec<Rule>, pub unsupported: bool }

pub fn collect_css(d: &Doc) -> Css {
    let mut css = Css { rules: vec![], unsupported: false };
    let mut order = 0;
    for n in d.elems() {
        if d.svg(n) != "style" { continue; }
        if let Some(t) = d.attr(n, "type") { if t != "text/css" && !t.is_empty() { continue; } }
        let t = d.all_text(n);
        let mut s2 = String::new();
        let mut rest = t.as_str();
        while let Some(i) = rest.find("/*") {
            s2.push_str(&rest[..i]);
            match rest[i + 2..].find("*/") { Some(j) => rest = &rest[i + 2 + j + 2..], None => { rest = ""; } }
        }
        s2.push_str(rest);
        block(&s2, &mut css, &mut order);
    }
    css.rules.sort_by(|a, b| a.spec.cmp(&b.spec).then(a.order.cmp(&b.order)));
    css
}

/// A list of rules and at-rules; a rule with an error applies to nothing.
fn block(s: &str, css: &mut Css, order: &mut usize) {
    let mut rest = s;
    loop {
        rest = rest.trim_start();
        if rest.starts_with('@') {
            let (semi, open) = (rest.find(';'), rest.find('{'));
            if semi.map_or(false, |k| open.map_or(true, |o| k < o)) {
                if rest.starts_with("@import") { css.unsupported = true; }
                rest = &rest[semi.unwrap() + 1..];
                continue;
            }
            let o = match open { Some(o) => o, None => return };
            let mut depth = 0;
            let mut end = rest.len();
            for (k, c) in rest.char_indices().skip_while(|x| x.0 < o) {
                match c { '{' => depth += 1, '}' => { depth -= 1; if depth == 0 { end = k; break; } } _ => {} }
            }
            let head = rest[..o].trim();
            let inner = &rest[o + 1..end.max(o + 1)];
            if let Some(m) = head.strip_prefix("@media") {
                match m.trim() { "all" | "screen" => block(inner, css, order), "print" | "speech" => {} _ => css.unsupported = true }
            } else if !head.starts_with("@font-face") { css.unsupported = true; }
            rest = if end < rest.len() { &rest[end + 1..] } else { "" };
            continue;
        }
        let i = match rest.find('{') { Some(i) => i, None => return };
        let sel = rest[..i].trim();
        let j = rest[i..].find('}').map_or(rest.len(), |j| i + j);
        let body = &rest[i + 1..j];
        rest = if j < rest.len() { &rest[j + 1..] } else { "" };
        let decls = parse_decls(body);
        let all: Vec<Option<_>> = sel.split(',').map(|one| parse_sel(one.trim(), &mut css.unsupported)).collect();
        *order += 1;
        // a list with a selector that can't be read is void
        if all.iter().any(|x| x.is_none()) { continue; }
        for (sl, spec) in all.into_iter().flatten() {
            css.rules.push(Rule { sel: sl, decls: decls.clone(), spec, order: *order });
            *order += 1;
        }
    }
}

fn parse_sel(s: &str, unknown: &mut bool) -> Option<(Vec<(char, Vec<Simple>)>, (u32, u32, u32))> {
    if s.is_empty() { return None; }
    if s.contains('\\') || s.contains('|') || s.contains("::") { *unknown = true; return None; }
    let mut out: Vec<(char, Vec<Simple>)> = vec![];
    let mut cur: Vec<Simple> = vec![];
    let mut comb = ' ';
    let mut spec = (0, 0, 0);
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    let word = |i: &mut usize| { let st = *i; while *i < b.len() && (b[*i].is_alphanumeric() || b[*i] == '-' || b[*i] == '_' || b[*i] as u32 > 127) { *i += 1; } b[st..*i].iter().collect::<String>() };
    while i < b.len() {
        let k = b[i];
        match k {
            '*' => { cur.push(Simple::Any); i += 1; }
            '.' | '#' => {
                i += 1;
                let w = word(&mut i);
                if w.is_empty() { return None; }
                if k == '.' { spec.1 += 1; cur.push(Simple::Class(w)); } else { spec.0 += 1; cur.push(Simple::Id(w)); }
            }
            '[' => {
                let e = i + b[i..].iter().position(|c| *c == ']')?;
                let t: String = b[i + 1..e].iter().collect();
                i = e + 1;
                let (n, op, v) = match t.find('=') {
                    None => (t.trim().to_string(), ' ', String::new()),
                    Some(q) => {
                        let v = t[q + 1..].trim().trim_matches(|c| c == '"' || c == '\'').to_string();
                        let l = t[..q].trim();
                        match l.chars().last() { Some(c) if "~|^$*".contains(c) => (l[..l.len() - 1].trim().to_string(), c, v), _ => (l.to_string(), '=', v) }
                    }
                };
                if n.is_empty() { return None; }
                spec.1 += 1;
                cur.push(Simple::Attr(n, op, v));
            }
            ':' => {
                i += 1;
                let w = word(&mut i);
                spec.1 += 1;
                match w.as_str() { "first-child" => cur.push(Simple::First), "hover" | "active" | "focus" => cur.push(Simple::Never), _ => { *unknown = true; return None; } }
            }
            c if c.is_whitespace() || ">+~".contains(c) => {
                let mut cb = ' ';
                while i < b.len() && (b[i].is_whitespace() || ">+~".contains(b[i])) { if !b[i].is_whitespace() { if cb != ' ' { return None; } cb = b[i]; } i += 1; }
                if cur.is_empty() || i >= b.len() { return None; }
                out.push((comb, std::mem::take(&mut cur)));
                comb = cb;
            }
            _ => {
                let w = word(&mut i);
                if w.is_empty() || !cur.is_empty() || w.starts_with(|c: char| c.is_ascii_digit()) { return None; }
                spec.2 += 1;
                cur.push(Simple::Tag(w));
            }
        }
    }
    if cur.is_empty() { return None; }
    out.push((comb, cur));
    Some((out, spec))
}

fn simple(d: &Doc, n: usize, s: &Simple) -> bool {
    match s {
        Simple::Any => true,
        Simple::Tag(t) => t == d.svg(n),
        Simple::Id(t) => d.attr(n, "id") == Some(t),
        Simple::Class(t) => d.attr(n, "class").map_or(false, |c| c.split_whitespace().any(|x| x == t)),
        Simple::Attr(a, op, v) => match d.attr(n, a) {
            None => false,
            Some(x) => match op { '=' => x == v, '~' => x.split_whitespace().any(|y| y == v), '|' => x == v || x.starts_with(&format!("{}-", v)), '^' => !v.is_empty() && x.starts_with(v.as_str()), '$' => !v.is_empty() && x.ends_with(v.as_str()), '*' => !v.is_empty() && x.contains(v.as_str()), _ => true },
        },
        Simple::First => before(d, n).is_none(),
        Simple::Never => false,
    }
}
fn before(d: &Doc, n: usize) -> Option<usize> {
    let p = d.parent(n)?;
    let k = d.children(p);
    let i = k.iter().position(|c| *c == n)?;
    k[..i].iter().rev().find(|c| d.is_elem(**c)).cloned()
}
fn matches(d: &Doc, n: usize, sel: &[(char, Vec<Simple>)]) -> bool {
    let (last, rest) = match sel.split_last() { Some(x) => x, None => return true };
    if !last.1.iter().all(|s| simple(d, n, s)) { return false; }
    if rest.is_empty() { return true; }
    let up = |n: usize| d.parent(n).filter(|p| d.is_elem(*p));
    match last.0 {
        '>' => up(n).map_or(false, |p| matches(d, p, rest)),
        '+' => before(d, n).map_or(false, |p| matches(d, p, rest)),
        '~' => { let mut k = before(d, n); while let Some(p) = k { if matches(d, p, rest) { return true; } k = before(d, p); } false }
        _ => { let mut k = up(n); while let Some(p) = k { if matches(d, p, rest) { return true; } k = up(p); } false }
    }
}

fn set(own: &mut Vec<Option<Rc<str>>>, k: &str, v: &str) {
    let v = v.trim();
    if k == "marker" {
        for m in ["marker-start", "marker-mid", "marker-end"] { own[pid(m).unwrap()] = Some(v.into()); }
        return;
    }
    if let Some(i) = pid(k) { own[i] = Some(v.into()); }
}

fn important(v: &str) -> Option<&str> { v.trim_end().strip_suffix("important").and_then(|v| v.trim_end().strip_suffix('!')).map(|v| v.trim_end()) }

/// Specified (cascaded, not yet inherited) values of an element.
pub fn cascaded(d: &Doc, css: &Css, n: usize) -> Vec<Option<Rc<str>>> {
    let mut own: Vec<Option<Rc<str>>> = vec![None; PROPS.len()];
    let mut imp: Vec<(String, String)> = vec![];
    let mut style = None;
    for a in d.attrs(n) {
        if a.name == "style" { style = Some(&a.value); continue; }
        if a.name != "marker" { set(&mut own, &a.name, &a.value); }
    }
    if !css.rules.is_empty() {
        for r in &css.rules {
            let m = matches(d, n, &r.sel);
            if m { for (k, v) in &r.decls { match important(v) { Some(w) => imp.push((k.clone(), w.to_string())), None => set(&mut own, k, v) } } }
        }
    }
    if let Some(s) = style { for (k, v) in parse_decls(s) { match important(&v) { Some(w) => imp.push((k.clone(), w.to_string())), None => set(&mut own, &k, &v) } } }
    for (k, v) in imp { set(&mut own, &k, &v); }
    own
}

pub fn compute(d: &Doc, css: &Css, n: usize, parent: &Style) -> Style {
    let own = cascaded(d, css, n);
    let mut out = Style { v: Vec::with_capacity(PROPS.len()), font_px: parent.font_px, decor: parent.decor.clone() };
    for (i, o) in own.into_iter().enumerate() {
        let inh = PROPS[i].1;
        let val = match o {
            None => if inh { parent.v[i].clone() } else { None },
            Some(ref s) if &**s == "inherit" => parent.v[i].clone(),
            x => x,
        };
        out.v.push(val);
    }
    // font-size resolved to px
    let fi = pid("font-size").unwrap();
    let own_set = match (&out.v[fi], &parent.v[fi]) { (Some(a), Some(b)) => !Rc::ptr_eq(a, b), (Some(_), None) => true, _ => false };
    if own_set {
        let s = out.v[fi].clone().unwrap();
        out.font_px = match &*s {
            "medium" => 16.0, "small" => 13.0, "large" => 18.0, "x-large" => 24.0, "x-small" => 10.0, "xx-small" => 9.0, "xx-large" => 32.0,
            "larger" => parent.font_px * 1.2, "smaller" => parent.font_px / 1.2,
            t => parse_len(t).map(|(v, u)| match u {
                "%" => parent.font_px * v / 100.0,
                "em" => parent.font_px * v,
                "ex" => parent.font_px * v / 2.0,
                _ => abs_len(v, u),
            }).unwrap_or(parent.font_px),
        };
    }
    // decorations propagate to the content
    let td = out.get("text-decoration");
    if td != "none" {
        let mut l: Vec<&str> = out.decor.split(' ').chain(td.split_whitespace()).filter(|x| !x.is_empty()).collect();
        l.sort(); l.dedup();
        let l = l.join(" ");
        out.decor = l.as_str().into();
    }
    // relative keywords
    let i = pid("font-weight").unwrap();
    if let Some(k @ ("bolder" | "lighter")) = out.v[i].as_deref() {
        let w = match parent.get("font-weight") { "normal" => 400, "bold" => 700, v => v.parse().unwrap_or(400) };
        let w = if k == "bolder" { if w < 350 { 400 } else if w < 550 { 700 } else { 900 } } else if w < 550 { 100 } else if w < 750 { 400 } else { 700 };
        out.v[i] = Some(w.to_string().as_str().into());
    }
    let i = pid("font-stretch").unwrap();
    if let Some(k @ ("wider" | "narrower")) = out.v[i].as_deref() {
        const L: [&str; 9] = ["ultra-condensed", "extra-condensed", "condensed", "semi-condensed", "normal", "semi-expanded", "expanded", "extra-expanded", "ultra-expanded"];
        let p = L.iter().position(|x| *x == parent.get("font-stretch")).unwrap_or(4);
        out.v[i] = Some(L[if k == "wider" { (p + 1).min(8) } else { p.max(1) - 1 }].into());
    }
    // lengths relative to the font size are inherited as absolute ones
    for nm in ["letter-spacing", "word-spacing", "kerning", "stroke-width", "stroke-dashoffset"] {
        let i = pid(nm).unwrap();
        if let Some((v, u @ ("em" | "ex"))) = out.v[i].as_deref().and_then(parse_len) {
            let px = v * out.font_px * if u == "ex" { 0.5 } else { 1.0 };
            out.v[i] = Some(px.to_string().as_str().into());
        }
    }
    let i = pid("stroke-dasharray").unwrap();
    if let Some(l) = out.v[i].clone().filter(|l| l.contains('e')) {
        let px: Vec<String> = l.split(|c: char| c == ',' || c.is_whitespace()).filter(|t| !t.is_empty()).map(|t| match parse_len(t) {
            Some((v, u @ ("em" | "ex"))) => (v * out.font_px * if u == "ex" { 0.5 } else { 1.0 }).to_string(),
            _ => t.to_string(),
        }).collect();
        out.v[i] = Some(px.join(" ").as_str().into());
    }
    // currentColor for inheritance: resolved where used via `color` of the element that specified it
    for nm in ["fill", "stroke"] {
        let i = pid(nm).unwrap();
        if let Some(v) = &out.v[i] {
            if v.eq_ignore_ascii_case("currentColor") {
                let c = out.get("color").to_string();
                out.v[i] = Some(c.as_str().into());
            }
        }
    }
    out
}

pub fn parse_len(s: &str) -> Option<(f64, &str)> {
    let s = s.trim();
    let mut p = crate::geom::NumScan::new(s);
    // guard: "1em" / "1ex" must not be read as an exponent
    let v = p.num()?;
    Some((v, s[p.i..].trim()))
}
pub fn abs_len(v: f64, u: &str) -> f64 {
    match u {
        "" | "px" => v,
        "in" => v * 96.0, "cm" => v * 96.0 / 2.54, "mm" => v * 96.0 / 25.4, "pt" => v * 96.0 / 72.0, "pc" => v * 16.0,
        _ => v,
    }
}

pub fn parse_color(s: &str) -> Option<[f64; 3]> {
    let s = s.trim();
    if let Some(h) = s.strip_prefix('#') {
        let n = |a: &str| u32::from_str_radix(a, 16).ok().map(|v| v as f64 / 255.0);
        let h = h.trim();
        if h.len() == 3 && h.is_ascii() {
            return Some([n(&h[0..1].repeat(2))?, n(&h[1..2].repeat(2))?, n(&h[2..3].repeat(2))?]);
        }
        if h.len() == 6 && h.is_ascii() { return Some([n(&h[0..2])?, n(&h[2..4])?, n(&h[4..6])?]); }
        return None;
    }
    let l = s.to_ascii_lowercase();
    if let Some(r) = l.strip_prefix("rgb(") {
        let r = r.trim_end().strip_suffix(')')?;
        let mut o = [0.0; 3];
        let parts: Vec<&str> = r.split(|c: char| c == ',' || c.is_whitespace()).filter(|x| !x.is_empty()).collect();
        if parts.len() != 3 { return None; }
        for (i, p) in parts.iter().enumerate() {
            o[i] = if let Some(q) = p.strip_suffix('%') { (q.parse::<f64>().ok()? * 2.55).round().max(0.0).min(255.0) / 255.0 }
            else { p.parse::<f64>().ok()?.max(0.0).min(255.0) / 255.0 };
        }
        return Some(o);
    }
    COLORS.iter().find(|c| c.0 == l).map(|c| [(c.1 >> 16 & 255) as f64 / 255.0, (c.1 >> 8 & 255) as f64 / 255.0, (c.1 & 255) as f64 / 255.0])
}

pub const COLORS: &[(&str, u32)] = &[
("aliceblue",0xf0f8ff),("antiquewhite",0xfaebd7),("aqua",0x00ffff),("aquamarine",0x7fffd4),("azure",0xf0ffff),("beige",0xf5f5dc),
("bisque",0xffe4c4),("black",0x000000),("blanchedalmond",0xffebcd),("blue",0x0000ff),("blueviolet",0x8a2be2),("brown",0xa52a2a),
("burlywood",0xdeb887),("cadetblue",0x5f9ea0),("chartreuse",0x7fff00),("chocolate",0xd2691e),("coral",0xff7f50),("cornflowerblue",0x6495ed),
("cornsilk",0xfff8dc),("crimson",0xdc143c),("cyan",0x00ffff),("darkblue",0x00008b),("darkcyan",0x008b8b),("darkgoldenrod",0xb8860b),
("darkgray",0xa9a9a9),("darkgreen",0x006400),("darkgrey",0xa9a9a9),("darkkhaki",0xbdb76b),("darkmagenta",0x8b008b),("darkolivegreen",0x556b2f),
("darkorange",0xff8c00),("darkorchid",0x9932cc),("darkred",0x8b0000),("darksalmon",0xe9967a),("darkseagreen",0x8fbc8f),("darkslateblue",0x483d8b),
("darkslategray",0x2f4f4f),("darkslategrey",0x2f4f4f),("darkturquoise",0x00ced1),("darkviolet",0x9400d3),("deeppink",0xff1493),("deepskyblue",0x00bfff),
("dimgray",0x696969),("dimgrey",0x696969),("dodgerblue",0x1e90ff),("firebrick",0xb22222),("floralwhite",0xfffaf0),("forestgreen",0x228b22),
("fuchsia",0xff00ff),("gainsboro",0xdcdcdc),("ghostwhite",0xf8f8ff),("gold",0xffd700),("goldenrod",0xdaa520),("gray",0x808080),("grey",0x808080),
("green",0x008000),("greenyellow",0xadff2f),("honeydew",0xf0fff0),("hotpink",0xff69b4),("indianred",0xcd5c5c),("indigo",0x4b0082),("ivory",0xfffff0),
("khaki",0xf0e68c),("lavender",0xe6e6fa),("lavenderblush",0xfff0f5),("lawngreen",0x7cfc00),("lemonchiffon",0xfffacd),("lightblue",0xadd8e6),
("lightcoral",0xf08080),("lightcyan",0xe0ffff),("lightgoldenrodyellow",0xfafad2),("lightgray",0xd3d3d3),("lightgreen",0x90ee90),("lightgrey",0xd3d3d3),
("lightpink",0xffb6c1),("lightsalmon",0xffa07a),("lightseagreen",0x20b2aa),("lightskyblue",0x87cefa),("lightslategray",0x778899),("lightslategrey",0x778899),
("lightsteelblue",0xb0c4de),("lightyellow",0xffffe0),("lime",0x00ff00),("limegreen",0x32cd32),("linen",0xfaf0e6),("magenta",0xff00ff),("maroon",0x800000),
("mediumaquamarine",0x66cdaa),("mediumblue",0x0000cd),("mediumorchid",0xba55d3),("mediumpurple",0x9370db),("mediumseagreen",0x3cb371),
("mediumslateblue",0x7b68ee),("mediumspringgreen",0x00fa9a),("mediumturquoise",0x48d1cc),("mediumvioletred",0xc71585),("midnightblue",0x191970),
("mintcream",0xf5fffa),("mistyrose",0xffe4e1),("moccasin",0xffe4b5),("navajowhite",0xffdead),("navy",0x000080),("oldlace",0xfdf5e6),("olive",0x808000),
("olivedrab",0x6b8e23),("orange",0xffa500),("orangered",0xff4500),("orchid",0xda70d6),("palegoldenrod",0xeee8aa),("palegreen",0x98fb98),
("paleturquoise",0xafeeee),("palevioletred",0xdb7093),("papayawhip",0xffefd5),("peachpuff",0xffdab9),("peru",0xcd853f),("pink",0xffc0cb),("plum",0xdda0dd),
("powderblue",0xb0e0e6),("purple",0x800080),("red",0xff0000),("rosybrown",0xbc8f8f),("royalblue",0x4169e1),("saddlebrown",0x8b4513),("salmon",0xfa8072),
("sandybrown",0xf4a460),("seagreen",0x2e8b57),("seashell",0xfff5ee),("sienna",0xa0522d),("silver",0xc0c0c0),("skyblue",0x87ceeb),("slateblue",0x6a5acd),
("slategray",0x708090),("slategrey",0x708090),("snow",0xfffafa),("springgreen",0x00ff7f),("steelblue",0x4682b4),("tan",0xd2b48c),("teal",0x008080),
("thistle",0xd8bfd8),("tomato",0xff6347),("turquoise",0x40e0d0),("violet",0xee82ee),("wheat",0xf5deb3),("white",0xffffff),("whitesmoke",0xf5f5f5),
("yellow",0xffff00),("yellowgreen",0x9acd32)];
