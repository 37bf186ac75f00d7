//! Greedy test-case reduction on the element tree.
use crate::gen::{Ch, El};
use crate::xml;

pub fn from_xml(s: &str) -> Option<El> {
    let d = xml::parse(s).ok()?;
    fn rec(d: &xml::Doc, n: usize) -> El {
        let name = match &d.nodes[n].kind { xml::Kind::Elem { name, .. } => name.clone(), _ => String::new() };
        let mut e = El::new(&name);
        for a in d.attrs(n) { e.at.push((a.name.clone(), a.value.clone())); }
        let raw = |e: &mut El, k: usize| for (_, _, t) in d.comment_list.iter().filter(|x| x.0 == Some(n) && x.1 == k) { e.ch.push(Ch::Raw(format!("<!--{}-->", t))); };
        for (k, &c) in d.children(n).iter().enumerate() {
            raw(&mut e, k);
            match d.text(c) { Some(t) => e.ch.push(Ch::T(t.to_string())), None => e.ch.push(Ch::E(rec(d, c))) }
        }
        raw(&mut e, d.children(n).len());
        e
    }
    Some(rec(&d, d.root))
}

pub fn plain(e: &El) -> String { let mut s = String::new(); ser(e, &mut s); s }
fn ser(e: &El, s: &mut String) {
    s.push('<'); s.push_str(&e.name);
    for (k, v) in &e.at { s.push_str(&format!(" {}=\"{}\"", k, crate::gen::esc_attr(v, '"'))); }
    if e.ch.is_empty() { s.push_str("/>"); return; }
    s.push('>');
    for c in &e.ch { match c { Ch::E(k) => ser(k, s), Ch::T(t) => s.push_str(&crate::gen::esc_text(t)), Ch::Raw(t) => s.push_str(t) } }
    s.push_str("</"); s.push_str(&e.name); s.push('>');
}

fn count(e: &El) -> usize { let mut n = 0; e.walk(&mut |_| n += 1); n }
fn nth<R>(e: &mut El, k: usize, f: &mut dyn FnMut(&mut El) -> R) -> Option<R> {
    let mut i = 0;
    let mut out = None;
    fn go<R>(e: &mut El, i: &mut usize, k: usize, f: &mut dyn FnMut(&mut El) -> R, out: &mut Option<R>) {
        if *i == k { *out = Some(f(e)); *i += 1; return; }
        *i += 1;
        for c in &mut e.ch { if out.is_some() { return; } if let Ch::E(x) = c { go(x, i, k, f, out); } }
    }
    go(e, &mut i, k, f, &mut out);
    out
}

/// `bad(doc, args)` must be true for the failure to be considered reproduced.
pub fn shrink(start: El, args: Vec<String>, budget: std::time::Duration, bad: &mut dyn FnMut(&str, &[String]) -> bool) -> (El, Vec<String>) {
    let t0 = std::time::Instant::now();
    let mut cur = start;
    let mut args = args;
    if !bad(&plain(&cur), &args) { return (cur, args); }
    loop {
        let mut changed = false;
        macro_rules! timeup { () => { if t0.elapsed() > budget { return (cur, args); } } }
        // drop options
        let mut i = 0;
        while i < args.len() {
            timeup!();
            let mut a = args.clone();
            a.remove(i);
            if bad(&plain(&cur), &a) { args = a; changed = true; } else { i += 1; }
        }
        // remove children, or hoist grandchildren
        let mut k = 0;
        while k < count(&cur) {
            timeup!();
            let n = nth(&mut cur, k, &mut |e| e.ch.len()).unwrap_or(0);
            let mut j = 0;
            let mut len = n;
            while j < len {
                timeup!();
                let mut t = cur.clone();
                nth(&mut t, k, &mut |e| { e.ch.remove(j); });
                if bad(&plain(&t), &args) { cur = t; len -= 1; changed = true; continue; }
                let mut t = cur.clone();
                let ok = nth(&mut t, k, &mut |e| {
                    let c = match &e.ch[j] { Ch::E(x) if matches!(x.name.as_str(), "g" | "defs" | "a" | "switch") => x.ch.clone(), _ => return false };
                    e.ch.splice(j..j + 1, c);
                    true
                }).unwrap_or(false);
                if ok && bad(&plain(&t), &args) { cur = t; changed = true; len = nth(&mut cur, k, &mut |e| e.ch.len()).unwrap_or(0); continue; }
                j += 1;
            }
            k += 1;
        }
        // drop attributes / simplify values
        for k in 0..count(&cur) {
            let mut j = 0;
            loop {
                timeup!();
                let at = nth(&mut cur, k, &mut |e| e.at.get(j).cloned()).flatten();
                let (name, val) = match at { Some(x) => x, None => break };
                if name.starts_with("xmlns") { j += 1; continue; }
                let mut t = cur.clone();
                nth(&mut t, k, &mut |e| { e.at.remove(j); });
                if bad(&plain(&t), &args) { cur = t; changed = true; continue; }
                if name == "d" || name == "points" || name == "transform" || name == "style" || name == "gradientTransform" {
                    let parts: Vec<String> = if name == "d" {
                        let mut v: Vec<String> = vec![];
                        for c in val.chars() { if c.is_ascii_alphabetic() && c != 'e' && c != 'E' { v.push(String::new()); } if v.is_empty() { v.push(String::new()); } v.last_mut().unwrap().push(c); }
                        v
                    } else if name == "style" { val.split(';').map(|s| format!("{};", s)).collect() }
                    else if name.ends_with("ransform") { val.split_inclusive(')').map(|s| s.to_string()).collect() }
                    else { val.split_whitespace().map(|s| format!("{} ", s)).collect() };
                    let mut p = parts;
                    let mut q = 0;
                    while q < p.len() && p.len() > 1 {
                        timeup!();
                        let mut pp = p.clone();
                        pp.remove(q);
                        let nv = pp.concat();
                        let mut t = cur.clone();
                        nth(&mut t, k, &mut |e| { e.at[j].1 = nv.trim().to_string(); });
                        if bad(&plain(&t), &args) { cur = t; p = pp; changed = true; } else { q += 1; }
                    }
                }
                j += 1;
            }
        }
        if !changed { return (cur, args); }
    }
}
