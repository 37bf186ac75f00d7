//! Generators of command line option sets.
use crate::clean::FLAGS;
use crate::rng::Rng;

fn words(on: bool, r: &mut Rng) -> &'static str {
    if on { r.pick(&["true", "true", "yes", "y"]) } else { r.pick(&["false", "false", "no", "n"]) }
}

/// Repair combinations that the tool refuses.
fn consistent(v: &mut Vec<(String, bool)>) {
    let get = |v: &Vec<(String, bool)>, k: &str| v.iter().find(|x| x.0 == k).map(|x| x.1).unwrap_or_else(|| FLAGS.iter().find(|f| f.0 == k).map(|f| f.1).unwrap_or(false));
    fn set(v: &mut Vec<(String, bool)>, k: &str, b: bool) { match v.iter_mut().find(|x| x.0 == k) { Some(x) => x.1 = b, None => v.push((k.into(), b)) } }
    if !get(v, "paths-to-relative") {
        for k in ["remove-unused-segments", "convert-segments", "apply-transform-to-paths"] { set(v, k, false); }
    }
    // known finding K8: namespace declarations of kept non-SVG elements are removed together with non-SVG attributes
    if !get(v, "remove-nonsvg-elements") { set(v, "remove-nonsvg-attributes", false); }
    if !get(v, "trim-paths") { set(v, "join-arcto-flags", false); }
}

fn extras(r: &mut Rng, out: &mut Vec<String>) {
    if r.p(35) { out.push(format!("--join-style-attributes={}", r.pick(&["no", "some", "all"]))); }
    if r.p(30) { out.push(format!("--list-separator={}", r.pick(&["space", "comma", "comma-space"]))); }
    if r.p(40) { out.push(format!("--indent={}", r.pick(&["none", "0", "1", "2", "3", "4", "tabs"]))); }
    for k in ["coordinates-precision", "properties-precision", "transforms-precision", "paths-coordinates-precision"] {
        if r.p(12) { out.push(format!("--{}={}", k, if k.starts_with("tr") || k.starts_with("pa") { r.i(8, 12) } else { r.i(6, 12) })); }
    }
}

/// With `--no-defaults` an option that needs another one has to come with it.
fn needs_nodef(fl: &mut Vec<(String, bool)>) {
    let on = |fl: &Vec<(String, bool)>, k: &str| fl.iter().any(|x| x.0 == k && x.1);
    if !on(fl, "paths-to-relative") { fl.retain(|x| !matches!(x.0.as_str(), "remove-unused-segments" | "convert-segments" | "apply-transform-to-paths")); }
    if !on(fl, "trim-paths") { fl.retain(|x| x.0 != "join-arcto-flags"); }
}

/// kinds: `default`, `rand` (random values of all options), `nodef` (`--no-defaults` and a random subset),
/// `only:a,b,c` (`--no-defaults` and the listed flags, each one switched on with 85 %), `with:a=b,..` (verbatim options)
/// `off:a,b` (defaults with some of the listed flags switched off)
pub fn gen(kind: &str, r: &mut Rng) -> Vec<String> {
    let mut out = vec![];
    if kind == "default" { return out; }
    let (k, rest) = kind.split_once(':').unwrap_or((kind, ""));
    let mut fl: Vec<(String, bool)> = vec![];
    match k {
        "rand" => {
            let d = r.pickv(&[5u32, 15, 50]);
            for (f, def) in FLAGS { if r.p(d) { fl.push((f.to_string(), if r.p(85) { !*def } else { *def })); } }
            consistent(&mut fl);
            extras(r, &mut out);
        }
        "nodef" => {
            out.push("--no-defaults".into());
            let d = r.pickv(&[8u32, 25, 60]);
            for (f, _) in FLAGS { if r.p(d) { fl.push((f.to_string(), true)); } }
            if !fl.iter().any(|x| x.0 == "remove-nonsvg-elements") { fl.retain(|x| x.0 != "remove-nonsvg-attributes"); }
            if r.p(20) { fl.push(("remove-comments".into(), false)); fl.dedup_by(|a, b| a.0 == b.0); }
            let mut seen = std::collections::HashSet::new();
            fl.retain(|x| seen.insert(x.0.clone()));
            needs_nodef(&mut fl);
            extras(r, &mut out);
        }
        "only" => {
            out.push("--no-defaults".into());
            for f in rest.split(',') { if let Some((k, v)) = f.split_once('=') { out.push(format!("--{}={}", k, v)); } else if r.p(85) { fl.push((f.to_string(), true)); } }
            // known finding K8
            if !fl.iter().any(|x| x.0 == "remove-nonsvg-elements") { fl.retain(|x| x.0 != "remove-nonsvg-attributes"); }
            needs_nodef(&mut fl);
            if !rest.contains("join-style") { out.push(format!("--join-style-attributes={}", "no")); }
        }
        "off" => {
            for f in rest.split(',') { if r.p(50) { fl.push((f.to_string(), false)); } }
            consistent(&mut fl);
        }
        "with" => { for f in rest.split(',') { out.push(format!("--{}", f)); } return out; }
        _ => panic!("bad args kind {}", kind),
    }
    for (f, b) in fl { out.push(format!("--{}={}", f, words(b, r))); }
    out
}
