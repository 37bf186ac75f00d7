//! Strict, independent XML parser used by the monitors (shares no code with the cleaner).
use std::collections::HashMap;

pub const SVG_NS: &str = "http://www.w3.org/2000/svg";
pub const XLINK_NS: &str = "http://www.w3.org/1999/xlink";

#[derive(Clone, Debug)]
pub struct Attr {
    pub name: String, // raw qualified name
    pub value: String,
}

#[derive(Clone, Debug)]
pub enum Kind {
    Elem { name: String, svg: bool, attrs: Vec<Attr> },
    Text(String),
}

#[derive(Clone, Debug)]
pub struct Node {
    pub kind: Kind,
    pub parent: usize,
    pub children: Vec<usize>,
}

#[derive(Clone, Debug, Default)]
pub struct Doc {
    pub nodes: Vec<Node>,
    pub root: usize,
    pub comments: usize,
    /// parent, number of preceding siblings, text
    pub comment_list: Vec<(Option<usize>, usize, String)>,
    pub pis: usize,
    pub pi_list: Vec<String>,
    pub has_decl: bool,
    pub has_doctype: bool,
    pub cdata: usize,
}

impl Doc {
    pub fn name(&self, n: usize) -> &str {
        match &self.nodes[n].kind {
            Kind::Elem { name, svg: true, .. } => match name.find(':') { Some(i) => &name[i + 1..], None => name },
            Kind::Elem { name, .. } => name,
            _ => "",
        }
    }
    /// name if it is an SVG element, "" otherwise
    pub fn svg(&self, n: usize) -> &str {
        match &self.nodes[n].kind {
            Kind::Elem { name, svg: true, .. } => match name.find(':') { Some(i) => &name[i + 1..], None => name },
            _ => "",
        }
    }
    pub fn is_elem(&self, n: usize) -> bool { matches!(self.nodes[n].kind, Kind::Elem { .. }) }
    pub fn attr<'a>(&'a self, n: usize, a: &str) -> Option<&'a str> {
        match &self.nodes[n].kind {
            Kind::Elem { attrs, .. } => attrs.iter().find(|x| x.name == a).map(|x| x.value.as_str()),
            _ => None,
        }
    }
    pub fn attrs(&self, n: usize) -> &[Attr] {
        match &self.nodes[n].kind {
            Kind::Elem { attrs, .. } => attrs,
            _ => &[],
        }
    }
    pub fn children(&self, n: usize) -> &[usize] { &self.nodes[n].children }
    pub fn parent(&self, n: usize) -> Option<usize> {
        if n == self.root { None } else { Some(self.nodes[n].parent) }
    }
    pub fn elems(&self) -> Vec<usize> {
        let mut out = Vec::new();
        let mut st = vec![self.root];
        while let Some(n) = st.pop() {
            if self.is_elem(n) {
                out.push(n);
                for &c in self.nodes[n].children.iter().rev() { st.push(c); }
            }
        }
        out
    }
    pub fn ids(&self) -> HashMap<&str, usize> {
        let mut m = HashMap::new();
        for n in self.elems() {
            if let Some(id) = self.attr(n, "id") { m.entry(id).or_insert(n); }
        }
        m
    }
    pub fn text(&self, n: usize) -> Option<&str> {
        match &self.nodes[n].kind { Kind::Text(t) => Some(t), _ => None }
    }
    pub fn all_text(&self, n: usize) -> String {
        let mut s = String::new();
        for &c in self.children(n) {
            if let Some(t) = self.text(c) { s.push_str(t) }
        }
        s
    }
}

struct P<'a> {
    s: &'a str,
    b: &'a [u8],
    i: usize,
    ents: HashMap<String, String>,
}

fn is_name_start(c: char) -> bool {
    c.is_ascii_alphabetic() || c == '_' || c == ':' ||
    matches!(c as u32, 0xC0..=0xD6 | 0xD8..=0xF6 | 0xF8..=0x2FF | 0x370..=0x37D | 0x37F..=0x1FFF | 0x200C..=0x200D
        | 0x2070..=0x218F | 0x2C00..=0x2FEF | 0x3001..=0xD7FF | 0xF900..=0xFDCF | 0xFDF0..=0xFFFD | 0x10000..=0xEFFFF)
}
fn is_name_char(c: char) -> bool {
    is_name_start(c) || c.is_ascii_digit() || c == '-' || c == '.' || matches!(c as u32, 0xB7 | 0x300..=0x36F | 0x203F..=0x2040)
}
fn is_xml_char(c: char) -> bool {
    matches!(c as u32, 0x9 | 0xA | 0xD | 0x20..=0xD7FF | 0xE000..=0xFFFD | 0x10000..=0x10FFFF)
}
pub fn is_valid_name(s: &str) -> bool {
    let mut it = s.chars();
    match it.next() { Some(c) if is_name_start(c) => {} _ => return false }
    it.all(is_name_char)
}

type R<T> = Result<T, String>;

impl<'a> P<'a> {
    fn err<T>(&self, m: &str) -> R<T> {
        let e = (self.i + 30).min(self.b.len());
        let mut st = self.i.min(self.b.len());
        while !self.s.is_char_boundary(st) { st -= 1; }
        let mut en = e;
        while !self.s.is_char_boundary(en) { en -= 1; }
        Err(format!("{} at byte {} near {:?}", m, self.i, &self.s[st..en.max(st)]))
    }
    fn ws(&mut self) -> bool {
        let s = self.i;
        while self.i < self.b.len() && matches!(self.b[self.i], b' ' | b'\t' | b'\n' | b'\r') { self.i += 1; }
        self.i > s
    }
    fn at(&self, p: &str) -> bool { self.s[self.i..].starts_with(p) }
    fn name(&mut self) -> R<String> {
        let st = self.i;
        let mut first = true;
        let mut len = 0;
        for c in self.s[self.i..].chars() {
            if first { if !is_name_start(c) { return self.err("bad name"); } first = false; }
            else if !is_name_char(c) { break; }
            len += c.len_utf8();
        }
        if first { return self.err("name expected"); }
        self.i += len;
        Ok(self.s[st..st + len].to_string())
    }
    fn until(&mut self, p: &str) -> R<&'a str> {
        match self.s[self.i..].find(p) {
            Some(k) => {
                let r = &self.s[self.i..self.i + k];
                self.i += k + p.len();
                Ok(r)
            }
            None => self.err(&format!("missing {:?}", p)),
        }
    }
    fn decode(&self, raw: &str, attr: bool, depth: usize) -> R<String> {
        if depth > 8 { return self.err("entity recursion"); }
        let mut out = String::with_capacity(raw.len());
        let mut it = raw.char_indices();
        while let Some((k, c)) = it.next() {
            if !is_xml_char(c) { return self.err(&format!("illegal char U+{:04X}", c as u32)); }
            if c == '<' { return self.err("raw '<' in value"); }
            if c == '&' {
                let rest = &raw[k + 1..];
                let e = match rest.find(';') { Some(e) => e, None => return self.err("unterminated reference") };
                let nm = &rest[..e];
                if let Some(h) = nm.strip_prefix("#x") {
                    match u32::from_str_radix(h, 16).ok().and_then(char::from_u32) {
                        Some(ch) if is_xml_char(ch) => out.push(ch),
                        _ => return self.err("bad char ref"),
                    }
                } else if let Some(d) = nm.strip_prefix('#') {
                    match d.parse::<u32>().ok().and_then(char::from_u32) {
                        Some(ch) if is_xml_char(ch) => out.push(ch),
                        _ => return self.err("bad char ref"),
                    }
                } else {
                    match nm {
                        "lt" => out.push('<'),
                        "gt" => out.push('>'),
                        "amp" => out.push('&'),
                        "quot" => out.push('"'),
                        "apos" => out.push('\''),
                        _ => match self.ents.get(nm) {
                            Some(v) => { let v = self.decode(v, attr, depth + 1)?; out.push_str(&v) }
                            None => return self.err(&format!("unknown entity &{};", nm)),
                        },
                    }
                }
                for _ in 0..nm.chars().count() + 1 { it.next(); }
                continue;
            }
            if attr && matches!(c, '\n' | '\t' | '\r') { out.push(' '); continue; }
            if c == '\r' { if !raw[k + 1..].starts_with('\n') { out.push('\n'); } continue; }
            out.push(c);
        }
        Ok(out)
    }
}

pub fn parse(s: &str) -> R<Doc> {
    let mut p = P { s, b: s.as_bytes(), i: 0, ents: HashMap::new() };
    let mut d = Doc::default();
    if p.at("\u{feff}") { p.i += 3; }
    if p.at("<?xml") && p.b.get(p.i + 5).map_or(false, |c| c.is_ascii_whitespace()) {
        p.until("?>")?;
        d.has_decl = true;
    }
    let mut stack: Vec<(usize, String, Vec<(String, String)>)> = Vec::new();
    let mut done = false;
    let mut nsscope: Vec<Vec<(String, String)>> = Vec::new();
    loop {
        if stack.is_empty() {
            p.ws();
            if p.i >= p.b.len() { break; }
        } else if p.i >= p.b.len() {
            return p.err("unexpected end");
        }
        if p.at("<!--") {
            p.i += 4;
            let c = p.until("-->")?.to_string();
            if c.contains("--") || c.ends_with('-') { return p.err("'--' in comment"); }
            d.comments += 1;
            let par = stack.last().map(|x| x.0);
            d.comment_list.push((par, par.map_or(0, |q| d.nodes[q].children.len()), c.to_string()));
            continue;
        }
        if p.at("<![CDATA[") {
            if stack.is_empty() { return p.err("cdata outside root"); }
            p.i += 9;
            let c = p.until("]]>")?.to_string();
            d.cdata += 1;
            push_text(&mut d, stack.last().unwrap().0, c);
            continue;
        }
        if p.at("<!DOCTYPE") {
            if d.has_doctype || !d.nodes.is_empty() { return p.err("misplaced doctype"); }
            d.has_doctype = true;
            p.i += 9;
            parse_doctype(&mut p)?;
            continue;
        }
        if p.at("<?") {
            p.i += 2;
            let n = p.name()?;
            if n.eq_ignore_ascii_case("xml") { return p.err("misplaced xml declaration"); }
            let c = p.until("?>")?.to_string();
            d.pis += 1;
            d.pi_list.push(format!("{} {}", n, c.trim()));
            continue;
        }
        if p.at("</") {
            p.i += 2;
            let n = p.name()?;
            p.ws();
            if !p.at(">") { return p.err("'>' expected"); }
            p.i += 1;
            match stack.pop() {
                Some((_, open, _)) if open == n => {}
                _ => return p.err(&format!("mismatched close tag {}", n)),
            }
            nsscope.pop();
            if stack.is_empty() { done = true; }
            continue;
        }
        if p.at("<") {
            if stack.is_empty() && done { return p.err("second root element"); }
            p.i += 1;
            let name = p.name()?;
            let mut attrs: Vec<Attr> = Vec::new();
            let empty;
            loop {
                let sp = p.ws();
                if p.at("/>") { p.i += 2; empty = true; break; }
                if p.at(">") { p.i += 1; empty = false; break; }
                if !sp { return p.err("whitespace expected before attribute"); }
                let an = p.name()?;
                p.ws();
                if !p.at("=") { return p.err("'=' expected"); }
                p.i += 1;
                p.ws();
                let q = match p.b.get(p.i) { Some(b'"') => "\"", Some(b'\'') => "'", _ => return p.err("quote expected") };
                p.i += 1;
                let raw = p.until(q)?;
                let v = p.decode(raw, true, 0)?;
                if attrs.iter().any(|a| a.name == an) { return p.err(&format!("duplicate attribute {}", an)); }
                attrs.push(Attr { name: an, value: v });
            }
            let mut decl = Vec::new();
            for a in &attrs {
                if a.name == "xmlns" { decl.push((String::new(), a.value.clone())); }
                else if let Some(pf) = a.name.strip_prefix("xmlns:") { decl.push((pf.to_string(), a.value.clone())); }
            }
            nsscope.push(decl);
            let lookup = |pf: &str| -> Option<String> {
                if pf == "xml" { return Some("xml".into()); }
                for sc in nsscope.iter().rev() {
                    for (k, v) in sc { if k == pf { return Some(v.clone()); } }
                }
                None
            };
            let pf = name.split(':').next().filter(|_| name.contains(':')).unwrap_or("");
            let ns = lookup(pf);
            if ns.is_none() && !pf.is_empty() { return p.err(&format!("undeclared prefix {}", pf)); }
            for a in &attrs {
                if let Some(k) = a.name.find(':') {
                    let apf = &a.name[..k];
                    if apf != "xmlns" && lookup(apf).is_none() {
                        return p.err(&format!("undeclared attribute prefix {} in {}", apf, a.name));
                    }
                }
            }
            let svg = ns.as_deref() == Some(SVG_NS);
            let id = d.nodes.len();
            let parent = stack.last().map(|s| s.0).unwrap_or(0);
            d.nodes.push(Node { kind: Kind::Elem { name: name.clone(), svg, attrs }, parent, children: vec![] });
            if let Some(l) = stack.last() { d.nodes[l.0].children.push(id); } else { d.root = id; }
            if empty { nsscope.pop(); if stack.is_empty() { done = true; } }
            else { stack.push((id, name, vec![])); }
            continue;
        }
        // text
        if stack.is_empty() { return p.err("text outside root"); }
        let e = p.s[p.i..].find('<').map(|k| p.i + k).unwrap_or(p.b.len());
        let raw = &p.s[p.i..e];
        if raw.contains("]]>") { return p.err("']]>' in text"); }
        let t = p.decode(raw, false, 0)?;
        p.i = e;
        push_text(&mut d, stack.last().unwrap().0, t);
    }
    if d.nodes.is_empty() { return Err("no root element".into()); }
    Ok(d)
}

fn push_text(d: &mut Doc, parent: usize, t: String) {
    if let Some(&l) = d.nodes[parent].children.last() {
        if let Kind::Text(ref mut s) = d.nodes[l].kind { s.push_str(&t); return; }
    }
    let id = d.nodes.len();
    d.nodes.push(Node { kind: Kind::Text(t), parent, children: vec![] });
    d.nodes[parent].children.push(id);
}

fn parse_doctype(p: &mut P) -> R<()> {
    if !p.ws() { return p.err("space expected after DOCTYPE"); }
    p.name()?;
    loop {
        p.ws();
        if p.at(">") { p.i += 1; return Ok(()); }
        if p.at("[") {
            p.i += 1;
            loop {
                p.ws();
                if p.at("]") { p.i += 1; break; }
                if p.at("<!--") { p.i += 4; p.until("-->")?; continue; }
                if p.at("<!ENTITY") {
                    p.i += 8;
                    p.ws();
                    let n = p.name()?;
                    p.ws();
                    let q = match p.b.get(p.i) { Some(b'"') => "\"", Some(b'\'') => "'", _ => return p.err("entity value") };
                    p.i += 1;
                    let v = p.until(q)?.to_string();
                    p.ws();
                    if !p.at(">") { return p.err("'>' expected"); }
                    p.i += 1;
                    p.ents.entry(n).or_insert(v);
                    continue;
                }
                if p.at("<!") || p.at("<?") { p.until(">")?; continue; }
                return p.err("bad doctype subset");
            }
            continue;
        }
        if p.at("\"") { p.i += 1; p.until("\"")?; continue; }
        if p.at("'") { p.i += 1; p.until("'")?; continue; }
        p.name()?;
    }
}
