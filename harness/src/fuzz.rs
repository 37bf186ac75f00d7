//! Hostile inputs: mutated documents, reference cycles, deep nesting, broken bytes.
use crate::cliruns::from_bytes;
use crate::gen;
use crate::mon::Case;
use crate::profiles;
use crate::rng::Rng;

pub fn base(r: &mut Rng) -> String {
    if r.p(25) { if let Some(d) = corpus(r.n(100000) as u64) { if d.len() < 6000 { return d; } } }
    let p = profiles::get(r.pick(profiles::NAMES), r);
    let root = gen::G::new(r, p).document();
    gen::serialize(&root, r, true)
}

/// A real-world document.
pub fn corpus(i: u64) -> Option<String> {
    static FILES: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    let f = FILES.get_or_init(|| {
        let mut v: Vec<_> = std::fs::read_dir("/verif/corpus").into_iter().flatten().flatten().map(|e| e.path()).filter(|p| p.extension().map_or(false, |e| e == "svg")).collect();
        v.sort();
        v.iter().filter_map(|p| std::fs::read_to_string(p).ok()).collect()
    });
    if f.is_empty() { None } else { f.get((i % f.len() as u64) as usize).cloned() }
}
pub fn corpus_len() -> u64 { let mut n = 0; for e in std::fs::read_dir("/verif/corpus").into_iter().flatten().flatten() { if e.path().extension().map_or(false, |x| x == "svg") { n += 1; } } n }

const NUMS: &[&str] = &["0", "-0", "1e308", "-1e308", "1e-308", "1e400", "NaN", "inf", "-", ".", "+.5e", "1e", "0x10", "99999999999999999999", "1e9", "-1e9", "4294967296", "2147483648", "0.0000000000001", "1,2", "", " ", "1px", "100%", "-5%", "1em", "5q", "none", "inherit", "auto", "currentColor"];
const VALS: &[&str] = &["none", "inherit", "url(#none)", "url(#", "url()", "url(#e1)", "url(#e2) none", "#fff", "#ffff", "#", "rgb(1,2", "rgb(300%,0,-5)", "currentColor", "hidden", "collapse", "0", "-1", "1e999", "matrix(0 0 0 0 0 0)", "matrix(1 2 3)", "scale(0)", "rotate(45 1)", "translate()",
    "skewX(90)", "scale(1e300)", "M", "M 0", "m 1 2 z z z", "L 1 2", "M 1 2 A 0 0 0 0 0 1 2", "M 1 2 A 1 1 0 2 3 4 5", "M 0 0 h", "M0 0 10", "z", "M 1e400 0", "M 0 0 c 1 2 3 4 5", "&amp;", "&#x0;", "&undefined;", "]]>", "a:b", "x", "é", "\u{1F600}", "#e1", "#e3", "foo.svg#a", "data:,x", "fill:red;stroke", "fill:", ":", ";;", "fill:red!important"];

fn attr_spans(s: &str) -> Vec<(usize, usize)> {
    // the inside of every quoted value
    let b = s.as_bytes();
    let mut v = vec![];
    let mut i = 0;
    while i + 1 < b.len() {
        if b[i] == b'=' && (b[i + 1] == b'"' || b[i + 1] == b'\'') {
            let q = b[i + 1];
            let st = i + 2;
            let mut j = st;
            while j < b.len() && b[j] != q { j += 1; }
            if j < b.len() { v.push((st, j)); }
            i = j;
        }
        i += 1;
    }
    v
}
fn tag_spans(s: &str) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut i = 0;
    while let Some(a) = s[i..].find('<') { let st = i + a; match s[st..].find('>') { Some(e) => { v.push((st, st + e + 1)); i = st + e + 1; } None => break } }
    v
}
fn names(s: &str) -> Vec<&str> {
    attr_spans(s).iter().filter_map(|&(a, _)| { let h = &s[..a - 2]; let k = h.rfind(|c: char| !(c.is_ascii_alphanumeric() || c == '-' || c == ':'))?; Some(&h[k + h[k..].chars().next().unwrap().len_utf8()..]) }).collect()
}

const TAGS: &[&str] = &["g", "svg", "defs", "use", "linearGradient", "radialGradient", "stop", "clipPath", "mask", "filter", "feGaussianBlur", "feImage", "pattern", "symbol", "marker", "text", "tspan", "textPath", "tref", "style", "switch", "a", "image", "path", "rect", "circle", "ellipse", "line", "polyline", "polygon", "title", "desc",
    "metadata", "foreignObject", "font", "font-face", "glyph", "view", "cursor", "color-profile", "altGlyph", "altGlyphDef", "feMerge", "feMergeNode", "mpath", "unknown", "s:x"];

pub fn mutate(mut s: String, r: &mut Rng, n: usize) -> String {
    for _ in 0..n {
        if s.len() > 60_000 { break; }
        match r.n(16) {
            0 | 1 | 2 => { // a value
                let v = attr_spans(&s);
                if let Some(&(a, b)) = pick(r, &v) { let w = if r.p(50) { r.pick(NUMS) } else { r.pick(VALS) }; s.replace_range(a..b, w); }
            }
            3 => { // copy a value elsewhere
                let v = attr_spans(&s);
                if let (Some(&(a, b)), Some(&(c, d))) = (pick(r, &v), pick(r, &v)) { let w = s[c..d].to_string(); s.replace_range(a..b, &w); }
            }
            4 => { // an attribute name
                let v = attr_spans(&s);
                let nm: Vec<String> = names(&s).iter().map(|x| x.to_string()).collect();
                if let (Some(&(a, _)), Some(w)) = (pick(r, &v), pick(r, &nm)) {
                    let h = &s[..a - 2];
                    if let Some(k) = h.rfind(|c: char| !(c.is_ascii_alphanumeric() || c == '-' || c == ':')) { let k2 = k + h[k..].chars().next().unwrap().len_utf8(); s.replace_range(k2..a - 2, w); }
                }
            }
            5 => { // delete an attribute
                let v = attr_spans(&s);
                if let Some(&(a, b)) = pick(r, &v) { let h = &s[..a]; if let Some(k) = h.rfind(|c: char| c.is_ascii_whitespace()) { if h[k..].find('>').is_none() { s.replace_range(k..b + 1, ""); } } }
            }
            6 => { // delete, duplicate or move a tag
                let v = tag_spans(&s);
                if let Some(&(a, b)) = pick(r, &v) { let t = s[a..b].to_string(); match r.n(3) { 0 => s.replace_range(a..b, ""), 1 => s.insert_str(b, &t), _ => { if let Some(&(c, _)) = pick(r, &v) { s.insert_str(c, &t); } } } }
            }
            7 => { // rename an element, both tags
                let t = r.pick(TAGS);
                let v = tag_spans(&s);
                if let Some(&(a, b)) = pick(r, &v) {
                    let w = s[a..b].to_string();
                    if w.starts_with("</") || w.starts_with("<!") || w.starts_with("<?") { continue; }
                    let e = w[1..].find(|c: char| c.is_whitespace() || c == '>' || c == '/').map_or(w.len() - 1, |k| k + 1);
                    let old = w[1..e].to_string();
                    if old == "svg" { continue; }
                    if w.ends_with("/>") { s.replace_range(a + 1..a + e, t); }
                    else if let Some(c) = s[b..].find(&format!("</{}>", old)) { s.replace_range(b + c + 2..b + c + 2 + old.len(), t); s.replace_range(a + 1..a + e, t); }
                }
            }
            8 => { // point a reference somewhere
                let ids: Vec<String> = s.match_indices(" id=\"").filter_map(|(k, m)| { let t = &s[k + m.len()..]; t.find('"').map(|e| t[..e].to_string()) }).collect();
                let v: Vec<(usize, usize)> = attr_spans(&s).into_iter().filter(|&(a, b)| s[a..b].starts_with('#') || s[a..b].starts_with("url(#")).collect();
                if let (Some(&(a, b)), Some(i)) = (pick(r, &v), pick(r, &ids)) { let w = if s[a..b].starts_with('#') { format!("#{}", i) } else { format!("url(#{})", i) }; s.replace_range(a..b, &w); }
            }
            9 => { // add a reference to a random element, maybe to an ancestor
                let ids: Vec<String> = s.match_indices(" id=\"").filter_map(|(k, m)| { let t = &s[k + m.len()..]; t.find('"').map(|e| t[..e].to_string()) }).collect();
                let v: Vec<(usize, usize)> = tag_spans(&s).into_iter().filter(|&(a, b)| !s[a..].starts_with("</") && !s[a..].starts_with("<!") && !s[a..].starts_with("<?") && b - a > 3).collect();
                if let (Some(&(a, _)), Some(i)) = (pick(r, &v), pick(r, &ids)) {
                    if let Some(e) = s[a + 1..].find(|c: char| c.is_whitespace() || c == '>' || c == '/') {
                        let w = format!(" {}", match r.n(7) { 0 => format!("xlink:href=\"#{}\"", i), 1 => format!("fill=\"url(#{})\"", i), 2 => format!("clip-path=\"url(#{})\"", i), 3 => format!("mask=\"url(#{})\"", i), 4 => format!("filter=\"url(#{})\"", i), 5 => format!("marker-start=\"url(#{})\"", i), _ => format!("style=\"fill:url(#{})\"", i) });
                        s.insert_str(a + 1 + e, &w);
                    }
                }
            }
            10 => { let k = cut(&s, r); s.truncate(k); } // truncated file
            11 => { let (a, b) = (cut(&s, r), cut(&s, r)); let (a, b) = (a.min(b), a.max(b)); if b - a < 300 { s.replace_range(a..b, ""); } }
            12 => { let k = cut(&s, r); s.insert_str(k, r.pick(&["<", ">", "&", "\"", "'", "]]>", "<![CDATA[", "<!--", "--", "?>", "<?x", "/>", "</g>", "<g>", "\u{0}", "\u{FEFF}", "&#10;", "&#x110000;", "<!DOCTYPE svg [<!ENTITY a 'b'>]>", "=", "{", "}", "@import", ":", "#", "\\"])); }
            13 => { // nest deeper
                let d = 1 + r.n(60); let v = tag_spans(&s);
                if let Some(&(a, b)) = pick(r, &v) { if s[a..b].ends_with("/>") { let t = r.pick(TAGS); let w = s[a..b].to_string(); s.replace_range(a..b, &format!("{}{}{}", format!("<{}>", t).repeat(d), w, format!("</{}>", t).repeat(d))); } }
            }
            14 => { // a style sheet
                let css = r.pick(&["*{fill:red}", "rect,#e1{fill:url(#e2)}", ".a{}", "g>rect{x:1}", "@font-face{}", "a[b]{fill:red}", "rect{fill:red", "}", "/*", "rect:first-child{fill:inherit}", ".k{font:inherit}", "*{marker:url(#e1)}", "* {stroke:currentColor}", "{}", "g g g{opacity:0}"]);
                if let Some(k) = s.rfind("</svg>") { s.insert_str(k, &format!("<style>{}</style>", css)); }
            }
            15 if r.p(50) => { // an entity that is not declared
                for (a, b) in attr_spans(&s).into_iter().rev() { if r.p(8) { s.replace_range(a..b, "&undefined;"); } }
            }
            _ => { // splice with another document
                let o = base(r);
                let (v, w) = (tag_spans(&s), tag_spans(&o));
                if let (Some(&(a, _)), Some(&(c, d))) = (pick(r, &v), pick(r, &w)) { s.insert_str(a, &o[c..d]); }
            }
        }
    }
    s
}
fn pick<'a, T>(r: &mut Rng, v: &'a [T]) -> Option<&'a T> { if v.is_empty() { None } else { let k = r.n(v.len()); v.get(k) } }
fn cut(s: &str, r: &mut Rng) -> usize { let mut k = r.n(s.len() + 1); while !s.is_char_boundary(k) { k -= 1; } k }

pub fn total_args(r: &mut Rng) -> Vec<String> {
    let mut a = if r.p(40) { vec![] } else if r.p(50) { crate::args::gen("rand", r) } else { crate::args::gen("nodef", r) };
    if r.p(30) { a.push("--allow-bigger-file".into()); }
    a
}

/// Mutated documents, most of them still well-formed XML.
pub fn soup(r: &mut Rng) -> Case {
    let n = if r.p(60) { 1 + r.n(3) } else { 3 + r.n(12) };
    let d = base(r);
    let doc = mutate(d, r, n);
    Case { doc, args: crate::args::gen(if r.p(40) { "default" } else if r.p(50) { "rand" } else { "nodef" }, r), seed: 0, accept: false }
}

/// Documents for whole-program runs: mutated text, broken bytes, extreme shapes.
pub fn whole(r: &mut Rng) -> Case {
    let args = total_args(r);
    let mut c = match r.n(10) {
        0 | 1 => { // bytes
            let mut b = base(r).into_bytes();
            for _ in 0..1 + r.n(8) { if b.is_empty() { break; } let k = r.n(b.len()); match r.n(4) { 0 => b[k] = r.n(256) as u8, 1 => b[k] ^= 1 << r.n(8), 2 => { b.remove(k); } _ => b.insert(k, r.n(256) as u8) } }
            Case { doc: from_bytes(&b), args, seed: 0, accept: false }
        }
        2 => { let n = r.n(200); let b: Vec<u8> = (0..n).map(|_| r.n(256) as u8).collect(); Case { doc: from_bytes(&b), args, seed: 0, accept: false } }
        3 | 4 => Case { doc: extreme(r), args, seed: 0, accept: false },
        _ => { let mut c = soup(r); c.args = args; c }
    };
    if r.p(15) { c.args.push("--multipass".into()); }
    c
}

const HEAD: &str = "<svg xmlns=\"http://www.w3.org/2000/svg\" xmlns:xlink=\"http://www.w3.org/1999/xlink\">";
/// Long lists, wide trees, moderately deep nesting, reference chains and cycles.
pub fn extreme(r: &mut Rng) -> String {
    let n = r.pickv(&[2usize, 10, 50, 200, 1000]);
    let body = match r.n(18) {
        0 => format!("{}<rect width='1' height='1'/>{}", "<g>".repeat(n), "</g>".repeat(n)),
        1 => format!("{}<rect width='1' height='1'/>{}", "<g fill='red' opacity='.5'>".repeat(n), "</g>".repeat(n)),
        2 => "<rect width='1' height='1' fill='red'/>".repeat(n * 5),
        3 => format!("<path d='M 0 0 {}'/>", "l 1 1 h 2 c 1 2 3 4 5 6 z m 1 1 ".repeat(n * 3)),
        4 => (0..n).map(|i| format!("<linearGradient id='g{}' xlink:href='#g{}'/>", i, i + 1)).collect::<String>() + &format!("<linearGradient id='g{}'><stop offset='0'/><stop offset='1'/></linearGradient><rect fill='url(#g0)' width='9' height='9'/>", n),
        5 => { let k = 1 + r.n(3); (0..=k).map(|i| format!("<linearGradient id='g{}' xlink:href='#g{}'/>", i, (i + 1) % (k + 1))).collect::<String>() + "<rect fill='url(#g0)' width='9' height='9'/>" }
        6 => { let k = 1 + r.n(3); (0..=k).map(|i| format!("<g id='g{}'><use xlink:href='#g{}'/></g>", i, (i + 1) % (k + 1))).collect::<String>() }
        7 => (0..n.min(60)).map(|i| format!("<g id='g{}'><use xlink:href='#g{}'/><use xlink:href='#g{}'/></g>", i, i + 1, i + 1)).collect::<String>() + &format!("<rect id='g{}' width='1' height='1'/>", n.min(60)),
        8 => { let t = r.pick(&["clipPath", "mask", "pattern", "marker", "filter", "symbol"]); let a = r.pick(&["clip-path", "mask", "fill", "marker-start", "filter", "stroke"]); format!("<{t} id='a' {a}='url(#b)'><rect width='5' height='5' {a}='url(#b)'/></{t}><{t} id='b' {a}='url(#a)'><rect width='5' height='5' {a}='url(#a)'/></{t}><rect width='9' height='9' {a}='url(#a)'/>", t = t, a = a) }
        9 => { let t = r.pick(&["clipPath", "mask", "pattern", "marker", "filter", "symbol", "g", "text"]); let a = r.pick(&["clip-path", "mask", "fill", "marker-start", "filter", "stroke"]); format!("<{t} id='a' {a}='url(#a)'><rect id='r' width='5' height='5' {a}='url(#a)'/></{t}><use xlink:href='#a'/><use id='u' xlink:href='#u'/>", t = t, a = a) }
        10 => format!("<style>{}</style><rect class='{}'/>", (0..n).map(|i| format!(".c{}{{fill:#{:03x}}}", i, i)).collect::<String>(), (0..n).map(|i| format!("c{} ", i)).collect::<String>()),
        11 => format!("<rect style='{}' width='1' height='1'/>", "fill:red;".repeat(n * 3)),
        12 => format!("<text>{}</text>", "<tspan>a</tspan> b ".repeat(n)),
        13 => format!("<text>{}x{}</text>", "<tspan>".repeat(n), "</tspan>".repeat(n)),
        14 => (0..n).map(|i| format!("<linearGradient id='g{}'><stop offset='0' stop-color='red'/><stop offset='1'/></linearGradient><rect x='{}' fill='url(#g{})' width='9' height='9'/>", i, i, i)).collect::<String>(),
        15 => format!("<polygon points='{}'/>", "1 2 ".repeat(n * 20)),
        16 => format!("<rect width='1' height='1' transform='{}'/>", "translate(1 2) rotate(3) scale(1.1) ".repeat(n)),
        _ => format!("<defs>{}</defs>", "<g><defs><path/></defs></g>".repeat(n)),
    };
    format!("{}{}</svg>", HEAD, body)
}
