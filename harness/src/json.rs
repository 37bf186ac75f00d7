//! Minimal JSON writer and reader.
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum J { Null, B(bool), N(f64), S(String), A(Vec<J>), O(BTreeMap<String, J>) }

impl J {
    pub fn s(v: impl Into<String>) -> J { J::S(v.into()) }
    pub fn n(v: u64) -> J { J::N(v as f64) }
    pub fn get(&self, k: &str) -> Option<&J> { if let J::O(m) = self { m.get(k) } else { None } }
    pub fn str(&self) -> Option<&str> { if let J::S(s) = self { Some(s) } else { None } }
    pub fn num(&self) -> Option<f64> { if let J::N(v) = self { Some(*v) } else { None } }
    pub fn dump(&self) -> String { let mut s = String::new(); self.w(&mut s, 0); s }
    fn w(&self, o: &mut String, d: usize) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::N(v) => if v.fract() == 0.0 && v.abs() < 9e15 { o.push_str(&format!("{}", *v as i64)) } else { o.push_str(&format!("{}", v)) },
            J::S(s) => q(s, o),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() { if i > 0 { o.push_str(", "); } x.w(o, d + 1); }
                o.push(']');
            }
            J::O(m) => {
                o.push('{');
                for (i, (k, x)) in m.iter().enumerate() {
                    if i > 0 { o.push(','); }
                    o.push('\n');
                    for _ in 0..=d { o.push_str("  "); }
                    q(k, o);
                    o.push_str(": ");
                    x.w(o, d + 1);
                }
                o.push('\n');
                for _ in 0..d { o.push_str("  "); }
                o.push('}');
            }
        }
    }
    pub fn parse(s: &str) -> Option<J> { let b: Vec<char> = s.chars().collect(); let mut i = 0; let v = p(&b, &mut i)?; Some(v) }
}

pub fn obj(v: Vec<(&str, J)>) -> J { J::O(v.into_iter().map(|(k, x)| (k.to_string(), x)).collect()) }

fn q(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\r' => o.push_str("\\r"), '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
}

fn ws(b: &[char], i: &mut usize) { while *i < b.len() && b[*i].is_whitespace() { *i += 1; } }
fn p(b: &[char], i: &mut usize) -> Option<J> {
    ws(b, i);
    match *b.get(*i)? {
        '{' => {
            *i += 1;
            let mut m = BTreeMap::new();
            loop {
                ws(b, i);
                if *b.get(*i)? == '}' { *i += 1; return Some(J::O(m)); }
                if *b.get(*i)? == ',' { *i += 1; continue; }
                let k = match p(b, i)? { J::S(s) => s, _ => return None };
                ws(b, i);
                if *b.get(*i)? != ':' { return None; }
                *i += 1;
                m.insert(k, p(b, i)?);
            }
        }
        '[' => {
            *i += 1;
            let mut v = vec![];
            loop {
                ws(b, i);
                if *b.get(*i)? == ']' { *i += 1; return Some(J::A(v)); }
                if *b.get(*i)? == ',' { *i += 1; continue; }
                v.push(p(b, i)?);
            }
        }
        '"' => {
            *i += 1;
            let mut s = String::new();
            loop {
                let c = *b.get(*i)?;
                *i += 1;
                match c {
                    '"' => return Some(J::S(s)),
                    '\\' => {
                        let e = *b.get(*i)?;
                        *i += 1;
                        match e {
                            'n' => s.push('\n'), 'r' => s.push('\r'), 't' => s.push('\t'), 'b' => s.push('\u{8}'), 'f' => s.push('\u{c}'),
                            'u' => {
                                let h: String = b.get(*i..*i + 4)?.iter().collect();
                                *i += 4;
                                let mut v = u32::from_str_radix(&h, 16).ok()?;
                                if (0xd800..0xdc00).contains(&v) && b.get(*i) == Some(&'\\') {
                                    let h2: String = b.get(*i + 2..*i + 6)?.iter().collect();
                                    *i += 6;
                                    v = 0x10000 + ((v - 0xd800) << 10) + (u32::from_str_radix(&h2, 16).ok()? - 0xdc00);
                                }
                                s.push(char::from_u32(v).unwrap_or('\u{fffd}'));
                            }
                            c => s.push(c),
                        }
                    }
                    c => s.push(c),
                }
            }
        }
        't' => { *i += 4; Some(J::B(true)) }
        'f' => { *i += 5; Some(J::B(false)) }
        'n' => { *i += 4; Some(J::Null) }
        _ => {
            let st = *i;
            while *i < b.len() && (b[*i].is_ascii_digit() || "+-.eE".contains(b[*i])) { *i += 1; }
            b[st..*i].iter().collect::<String>().parse().ok().map(J::N)
        }
    }
}
