use crate::clean::{clean, Out};
use crate::compare::{compare, Stats, Tol};
use crate::rng::Rng;
use crate::{scene, xml};

#[derive(Clone, Debug)]
pub enum V { Pass(Stats), Skip(String), Fail(String, String) }

impl V {
    pub fn failed(&self) -> bool { matches!(self, V::Fail(..)) }
}

#[derive(Clone, Debug)]
pub struct Cfg { pub args: Vec<String>, pub tol: Tol, pub seed: u64, pub must_accept: bool }

/// The picture of `a` equals the picture of `b`?
pub fn same_picture(a: &str, b: &str, tol: &Tol, seed: u64) -> V {
    let da = match xml::parse(a) { Ok(d) => d, Err(e) => return V::Skip(format!("input not well-formed: {}", e)) };
    let sa = scene::build(&da);
    if !sa.unsupported.is_empty() { return V::Skip(format!("oracle: {}", sa.unsupported.join(","))); }
    let db = match xml::parse(b) { Ok(d) => d, Err(e) => return V::Fail("malformed".into(), e) };
    let sb = scene::build(&db);
    if !sb.unsupported.is_empty() && sb.unsupported.iter().all(|u| u.starts_with("ambiguous")) { return V::Skip(format!("oracle: {}", sb.unsupported.join(","))); }
    if !sb.unsupported.is_empty() { return V::Fail("broken".into(), format!("output has: {}", sb.unsupported.join(","))); }
    let mut rng = Rng::new(seed);
    match compare(&sa, &sb, tol, &mut rng) {
        Ok(s) => V::Pass(s),
        Err(e) => V::Fail("picture".into(), e),
    }
}

pub fn render_case(doc: &str, cfg: &Cfg) -> (V, Option<String>) {
    match clean(doc, &cfg.args) {
        Out::Ok(s) => { let v = same_picture(doc, &s, &cfg.tol, cfg.seed); (v, Some(s)) }
        Out::Panic(p) => (V::Fail("panic".into(), p), None),
        Out::ParseErr(e) | Out::CleanErr(e) => {
            // 'currentColor' and 'inherit' of a used element can have several values
            let multi = e.starts_with("failed to resolved attribute") && doc.contains("<use") && (doc.contains("currentColor") || doc.contains("inherit"));
            if cfg.must_accept && !multi { (V::Fail("rejected".into(), e), None) } else { (V::Skip(format!("rejected: {}", e)), None) }
        }
        Out::BadArgs(e) => (V::Skip(format!("args: {}", e)), None),
    }
}
