//! Properties: which workloads are run and which monitors watch them.
use crate::mon::Case;
use crate::rng::Rng;
use crate::{args, fuzz, gen, profiles};

pub type GenFn = fn(&mut Rng) -> Case;

pub struct Stream {
    pub name: String,
    pub prof: &'static str,
    pub kind: &'static str,
    pub mons: &'static [&'static str],
    pub n: u64,
    pub custom: Option<GenFn>,
}

pub struct Prop { pub id: &'static str, pub rule: &'static str, pub streams: Vec<Stream> }

fn s(prof: &'static str, kind: &'static str, mons: &'static [&'static str], n: u64) -> Stream {
    Stream { name: format!("{}/{}", prof, kind), prof, kind, mons, n, custom: None }
}

fn c(name: &str, f: GenFn, mons: &'static [&'static str], n: u64) -> Stream { Stream { name: format!("custom/{}", name), prof: "", kind: "", mons, n, custom: Some(f) } }

const ISO: &[&str] = &["isolation"];

fn iso_doc(r: &mut Rng) -> String {
    let p = profiles::get(r.pick(profiles::NAMES), r);
    let mut root = gen::G::new(r, p).document();
    crate::mon2::with_ids(&mut root);
    gen::serialize(&root, r, true)
}
fn iso(doc: String, flags: &[&str]) -> Case {
    let mut args: Vec<String> = ["--no-defaults", "--join-style-attributes=no", "--indent=none"].iter().map(|s| s.to_string()).collect();
    for f in flags { args.push(format!("--{}=true", f)); }
    // an option that needs another one
    for (f, n) in crate::cliruns::NEEDS { if flags.contains(f) && !args.iter().any(|a| a.starts_with(&format!("--{}=", n))) { args.push(format!("--{}=true", n)); } }
    Case { doc, args, seed: 0, accept: true }
}
/// flags that can be observed by element ids (the ones that change ids are watched by other monitors)
fn iso_flag(r: &mut Rng) -> &'static str {
    loop { let f = crate::clean::FLAGS[r.n(crate::clean::FLAGS.len())].0; if !matches!(f, "remove-unreferenced-ids" | "trim-ids" | "append-newline") { return f; } }
}
fn iso_single(r: &mut Rng) -> Case { let d = iso_doc(r); let f = iso_flag(r); iso(d, &[f]) }
fn iso_few(r: &mut Rng) -> Case { let d = iso_doc(r); let n = 2 + r.n(3); let f: Vec<&str> = (0..n).map(|_| iso_flag(r)).collect(); iso(d, &f) }
fn iso_none(r: &mut Rng) -> Case { let d = iso_doc(r); iso(d, &[]) }

/// Many short ids in a random order, some of them not referenced.
fn many_ids(r: &mut Rng) -> Case {
    let n = if r.p(6) { 3270 + r.n(60) } else { 45 + r.n(90) };
    let name = |i: usize| { let c: Vec<char> = ('a'..='z').chain('A'..='Z').chain('0'..='9').collect(); if i < 52 { c[i].to_string() } else { let j = i - 52; if j < 52 * 62 { format!("{}{}", c[j / 62], c[j % 62]) } else { format!("a{}", i) } } };
    let mut ids: Vec<String> = (0..n).map(name).collect();
    for i in 0..n { let j = i + r.n(n - i); ids.swap(i, j); }
    let (mut d, mut b) = (String::new(), String::new());
    for (i, id) in ids.iter().enumerate() {
        let (x, y) = (i % 60 * 10, i / 60 * 10);
        match r.n(6) {
            0 => b.push_str(&format!("<rect id=\"{}\" x=\"{}\" y=\"{}\" width=\"5\" height=\"5\"/>", id, x, y)),
            1 => { d.push_str(&format!("<path id=\"{}\" d=\"M0 0h5v{}\"/>", id, 1 + i % 7)); for k in 0..2 { b.push_str(&format!("<use xlink:href=\"#{}\" x=\"{}\" y=\"{}\"/>", id, x, y + k)); } }
            _ => {
                d.push_str(&format!("<linearGradient id=\"{}\"><stop offset=\"0\" stop-color=\"#{:06x}\"/><stop offset=\"1\"/></linearGradient>", id, (i * 2654435761usize) & 0xffffff));
                b.push_str(&format!("<rect fill=\"url(#{})\" x=\"{}\" y=\"{}\" width=\"5\" height=\"5\"/>", id, x, y));
            }
        }
    }
    let doc = format!("<svg xmlns=\"http://www.w3.org/2000/svg\" xmlns:xlink=\"http://www.w3.org/1999/xlink\"><defs>{}</defs>{}</svg>", d, b);
    let args = match r.n(4) { 0 => vec![], 1 => vec!["--no-defaults".into(), "--trim-ids=true".into()], 2 => vec!["--remove-unreferenced-ids=false".into()], _ => args::gen("rand", r) };
    Case { doc, args, seed: 0, accept: true }
}

/// A style sheet with selectors and rules that the program may refuse, but not misread.
fn odd_css(r: &mut Rng) -> Case {
    let p = profiles::get(r.pick(&["css", "style", "groups"]), r);
    let root = gen::G::new(r, p).document();
    let mut doc = gen::serialize(&root, r, true);
    let tag = |r: &mut Rng| r.pick(&["rect", "path", "circle", "g", "ellipse", "svg", "polygon", "*", "line", ".st1", ".cls-3", "text"]).to_string();
    let tagn = |r: &mut Rng| r.pick(&["rect", "path", "circle", "g", "ellipse", "svg", "polygon", "line", ".st1", ".cls-3"]).to_string();
    let mut css = String::new();
    for _ in 0..1 + r.n(2) {
        // known finding K18: '*' inside of a combined selector, and compound selectors
        let (a, b) = (tagn(r), tagn(r));
        let el = r.pick(&["rect", "path", "circle", "ellipse", "polygon", "g"]).to_string();
        let sel = match r.n(16) {
            0 => format!("{} {}", a, b), 1 => format!("{}>{}", a, b), 2 => format!("{} > {}", a, b), 3 => format!("{}+{}", a, b), 4 => format!("{} ~ {}", a, b),
            5 => format!("{}[{}]", el, r.pick(&["id", "fill", "x", "d", "transform"])), 6 => format!("[{}=\"{}\"]", r.pick(&["width", "id", "class"]), r.pick(&["10", "a", "st1"])),
            7 => format!("{}:hover", a), 8 => format!("{}:first-child", el), 9 => format!("svg {} {}", a, el), 10 => format!("{}, g {}", el, b), 11 => format!("{}:active", tag(r)),
            12 => r.pick(&["*", "*[id]", "*:hover"]).to_string(), 13 => format!("{}:nth-child(2)", el), 14 => format!("{}:not(.st1)", el), _ => el.clone(),
        };
        let decl = r.pick(&["fill:#0a7", "stroke:#70c;stroke-width:3", "opacity:.3", "fill:red", "visibility:hidden", "display:none", "stroke-width:6", "fill-rule:evenodd;fill:#123456"]).to_string();
        css.push_str(&match r.n(12) {
            0 => format!("@media print{{{}{{{}}}}}", sel, decl), 1 => format!("@media screen {{ {} {{ {} }} }}", sel, decl), 2 => format!("@import url(other.css);{}{{{}}}", sel, decl),
            3 => format!("@font-face{{font-family:x;src:url(x.ttf)}}{}{{{}}}", sel, decl), 4 => format!("{}{{{}", sel, decl), 5 => format!("/* {} */{}{{;{};}}", a, sel, decl),
            _ => format!("{}{{{}}}", sel, decl),
        });
        css.push('\n');
    }
    if !doc.contains("<style") { let k = doc.find("<svg").unwrap(); let k = k + doc[k..].find('>').unwrap(); if !doc[..k].ends_with('/') { doc.insert_str(k + 1, "<style></style>"); } }
    if let Some(s) = doc.find("<style") {
        let s = s + doc[s..].find('>').unwrap() + 1;
        let (lo, hi) = match doc[s..].strip_prefix("<![CDATA[") { Some(t) => (s + 9, s + 9 + t.find("]]>").unwrap()), None => (s, s + doc[s..].find("</style").unwrap_or(0)) };
        // known finding K17: specificity; what follows is refused or of the lowest specificity
        let at = if css.trim_end().ends_with('}') { lo } else { hi };
        doc.insert_str(at, &css);
    }
    let args = match r.n(3) { 0 => vec![], 1 => args::gen("rand", r), _ => args::gen("nodef", r) };
    Case { doc, args, seed: 0, accept: false }
}

fn cli_options(r: &mut Rng) -> Case { Case { doc: fuzz::base(r), args: vec![], seed: r.u64() | 1, accept: true } }
fn cli_show(r: &mut Rng) -> Case { Case { doc: String::new(), args: vec![], seed: r.u64() | 1, accept: true } }
/// Documents that can be cleaned.
fn cli_faults(r: &mut Rng) -> Case {
    let args = match r.n(4) { 0 => vec!["--append-newline=true".to_string()], 1 => vec!["--indent=4".to_string()], 2 => vec![], _ => args::gen("rand", r) };
    Case { doc: fuzz::base(r), args, seed: r.u64() | 1, accept: true }
}

fn cli_files(r: &mut Rng) -> Case {
    let args = match r.n(4) { 0 => vec![], 1 => vec!["--append-newline=true".to_string()], 2 => vec!["--indent=4".to_string()], _ => args::gen("rand", r) };
    let doc = match r.n(12) {
        0 => "<svg xmlns=\"http://www.w3.org/2000/svg\"/>".to_string(),
        1 => "<svg xmlns=\"http://www.w3.org/2000/svg\"><path d=\"m1 2h3v4z\"/></svg>".to_string(),
        2 => fuzz::base(r) + "<",
        3 => String::new(),
        4 => { let mut b = fuzz::base(r).into_bytes(); let k = r.n(b.len()); b.insert(k, 0xff); fuzz_bytes(&b) }
        5 => fuzz::base(r).replacen("</svg>", "<script/></svg>", 1),
        6 => { let n = 1 + r.n(3); let d = fuzz::base(r); fuzz::mutate(d, r, n) }
        7 => { let d = fuzz::base(r); match crate::clean::clean(&d, &args) { crate::clean::Out::Ok(o) => o, _ => d } } // already clean
        8 => { let d = fuzz::base(r); match crate::clean::clean(&d, &[]) { crate::clean::Out::Ok(o) => o, _ => d } }
        _ => fuzz::base(r),
    };
    Case { doc, args, seed: r.u64() | 1, accept: false }
}
fn fuzz_bytes(b: &[u8]) -> String { crate::cliruns::from_bytes(b) }

pub fn make(st: &Stream, seed: u64, idx: u64) -> Case {
    let mut r = Rng::from(seed, &st.name, idx);
    if let Some(f) = st.custom { let mut c = f(&mut r); if st.name == "custom/showcase" { c.seed = idx + seed * 7 * (crate::showcase::SHOWS.len() + crate::showcase::CHOICES.len()) as u64; } if c.seed == 0 { c.seed = seed ^ idx.wrapping_mul(77); } return c; }
    if st.prof == "corpus" {
        let a = args::gen(st.kind, &mut r);
        return Case { doc: fuzz::corpus(idx).unwrap_or_else(|| "<svg xmlns='http://www.w3.org/2000/svg'/>".into()), args: a, seed: idx.wrapping_add(seed << 32), accept: false };
    }
    if st.prof.starts_with('~') {
        let doc = crate::tame::bent_doc(&st.prof[1..], &mut r);
        let a = args::gen(st.kind, &mut r);
        return Case { doc, args: a, seed: idx.wrapping_add(seed << 32), accept: false };
    }
    let p = profiles::get(st.prof, &mut r);
    let root = gen::G::new(&mut r, p).document();
    let doc = gen::serialize(&root, &mut r, true);
    let a = args::gen(st.kind, &mut r);
    Case { doc, args: a, seed: idx.wrapping_add(seed << 32), accept: true }
}

const SPL: &[&str] = &["spelling"];
const PIC: &[&str] = &["picture"];
const PICWF: &[&str] = &["picture", "wellformed"];
const REF: &[&str] = &["refs"];
const WF: &[&str] = &["wellformed"];
const WFRE: &[&str] = &["wellformed", "reclean"];
const PROM: &[&str] = &["promises"];
const PICREF: &[&str] = &["picture", "refs"];

const PATHOPTS: &str = "only:paths-to-relative,remove-unused-segments,convert-segments,trim-paths,remove-dupl-cmd-in-paths,use-implicit-cmds,join-arcto-flags";
const TSOPTS: &str = "only:apply-transform-to-shapes,apply-transform-to-gradients,apply-transform-to-paths,paths-to-relative,ungroup-groups,group-by-style,simplify-transforms";
const GROUPOPTS: &str = "only:ungroup-groups,group-by-style,ungroup-defs,remove-unused-defs,resolve-use,remove-invisible-elements";
const ATTROPTS: &str = "only:remove-default-attributes,remove-needless-attributes,remove-text-attributes,remove-unused-coordinates,remove-gradient-attributes,remove-nonsvg-elements,remove-nonsvg-attributes,remove-version";
const GRADOPTS: &str = "only:merge-gradients,regroup-gradient-stops,remove-invalid-stops,remove-dupl-lineargradient,remove-dupl-radialgradient,remove-gradient-attributes,apply-transform-to-gradients,remove-default-attributes,remove-unused-coordinates,remove-unreferenced-ids,trim-ids";
const DEFOPTS: &str = "only:remove-unused-defs,resolve-use,ungroup-defs,trim-ids,remove-unreferenced-ids,remove-dupl-lineargradient,remove-dupl-radialgradient,remove-dupl-fegaussianblur,remove-invisible-elements,ungroup-groups";

pub const ALL: &[&str] = &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27"];

pub fn get(id: &str) -> Option<Prop> {
    let rule = "seeded grammar-based SVG documents of the listed feature profiles and option kinds; non-trivial: the cleaner accepted the document, changed it, and the oracle compared at least one painted probe, glyph, image, filter or link";
    let (id, streams): (&'static str, Vec<Stream>) = match id {
        "C01" => ("C01", vec![s("mixed", "default", PICREF, 10000), s("default", "default", PIC, 5000), s("style", "default", PIC, 2500), s("refs", "default", PIC, 2500), s("vis", "default", PIC, 2500), s("grads", "default", PIC, 2500), s("corpus", "default", PICREF, 320), s("~mixed", "default", PICREF, 4000), s("~default", "default", PIC, 4000)]),
        "C02" => ("C02", vec![s("paths", PATHOPTS, PICWF, 20000), s("paths", "default", PIC, 10000), s("paths", "rand", PIC, 6000), s("corpus", PATHOPTS, PIC, 320), s("~paths", PATHOPTS, PIC, 5000)]),
        "C03" => ("C03", vec![s("shapes", "only:convert-shapes", PICWF, 8000), s("shapes", "default", PIC, 10000), s("units", "only:convert-shapes,remove-default-attributes", PIC, 4000), s("shapes", "only:convert-shapes,paths-to-relative,remove-unused-segments,convert-segments,trim-paths", PIC, 5000), s("~shapes", "only:convert-shapes", PIC, 5000)]),
        "C04" => ("C04", vec![s("ts", TSOPTS, PIC, 12000), s("ts", "default", PIC, 8000), s("ts", "with:apply-transform-to-paths=true", PIC, 8000), s("grads", "only:apply-transform-to-gradients", PIC, 5000), s("unitts", TSOPTS, PIC, 4000), s("~ts", TSOPTS, PIC, 5000)]),
        "C05" => ("C05", vec![s("groups", GROUPOPTS, PIC, 5000), s("groups", "default", PIC, 4000), s("mixed", GROUPOPTS, PICREF, 4000), s("links", GROUPOPTS, PIC, 4000), s("vis", GROUPOPTS, PIC, 4000), s("corpus", GROUPOPTS, PIC, 320), s("~groups", GROUPOPTS, PIC, 4000), s("~vis", GROUPOPTS, PIC, 3000)]),
        "C06" => ("C06", vec![s("style", ATTROPTS, PIC, 6000), s("defaults", ATTROPTS, PIC, 8000), s("defaults", "default", PIC, 5000), s("text", ATTROPTS, PIC, 3000), s("units", ATTROPTS, PIC, 3000), s("grads", ATTROPTS, PIC, 3000), s("~defaults", ATTROPTS, PIC, 4000), s("~style", ATTROPTS, PIC, 4000)]),
        "C07" => ("C07", vec![s("css", "nodef", PIC, 10000), s("css", "default", PIC, 10000), s("style", "only:join-style-attributes=all", PIC, 4000), s("style", "rand", PIC, 4000), c("oddcss", odd_css, PIC, 6000)]),
        "C08" => ("C08", vec![s("inherit", "default", PIC, 10000), s("inherit", "nodef", PIC, 10000), s("style", "default", PIC, 5000), s("~inherit", "default", PIC, 3000), s("~inherit", "nodef", PIC, 3000)]),
        "C09" => ("C09", vec![s("grads", GRADOPTS, PICREF, 10000), s("grads", "default", PICREF, 10000), s("grads", "rand", PICREF, 6000), s("~grads", GRADOPTS, PICREF, 5000), s("~grads", "default", PICREF, 5000)]),
        "C10" => ("C10", vec![s("refs", DEFOPTS, PICREF, 8000), s("refs", "default", PICREF, 8000), s("refs", "rand", PICREF, 5000), s("~refs", DEFOPTS, PICREF, 5000)]),
        "C11" => ("C11", vec![s("vis", "only:remove-invisible-elements,remove-unused-defs,ungroup-groups", PIC, 8000), s("vis", "default", PIC, 8000), s("mixed", "only:remove-invisible-elements", PIC, 4000), s("filters", "only:remove-invisible-elements", PIC, 4000), s("refs", "only:remove-invisible-elements,remove-unused-defs", PIC, 4000), s("~vis", "only:remove-invisible-elements,remove-unused-defs", PIC, 5000), s("~filters", "only:remove-invisible-elements", PIC, 3000)]),
        "C12" => ("C12", vec![s("text", "default", PIC, 10000), s("text", "rand", PIC, 10000), s("text", "only:remove-text-attributes,remove-default-attributes,remove-needless-attributes,ungroup-groups,group-by-style", PIC, 6000), s("~text", "rand", PIC, 5000)]),
        "C13" => ("C13", vec![s("links", "default", PIC, 10000), s("links", "rand", PIC, 10000), s("links", GROUPOPTS, PIC, 5000), s("~links", "rand", PIC, 5000)]),
        "C14" => ("C14", vec![s("filters", "default", PICREF, 10000), s("filters", "rand", PICREF, 10000), s("filters", "only:remove-dupl-fegaussianblur,remove-invisible-elements,remove-default-attributes,remove-unused-defs", PICREF, 6000), s("~filters", "rand", PICREF, 5000)]),
        "C15" => ("C15", vec![s("refs", "rand", REF, 12000), s("mixed", "rand", REF, 12000), s("grads", GRADOPTS, REF, 8000), s("refs", "default", REF, 8000), s("ids", "rand", REF, 8000), s("ids", "with:remove-unreferenced-ids=false", REF, 3000), c("many", many_ids, REF, 150), s("corpus", "rand", REF, 320), s("~refs", "rand", REF, 5000), s("~ids", "rand", REF, 5000), s("~mixed", "rand", REF, 5000)]),
        "C16" => ("C16", vec![c("digits", crate::mon3::precise, &["rounding"], 16000), c("low", crate::mon3::low, &["lowpic"], 8000)]),
        "C17" => ("C17", vec![s("groups", "only:ungroup-groups", PROM, 3000), s("mixed", "rand", PROM, 8000), s("mixed", "default", PROM, 3000), s("ids", "rand", PROM, 4000), s("text", "rand", PROM, 3000), s("css", "rand", PROM, 3000), s("grads", "rand", PROM, 3000),
            s("groups", "rand", PROM, 3000), s("paths", "rand", PROM, 3000), s("defaults", "rand", PROM, 3000), s("ids", "only:remove-unused-defs,remove-comments", PROM, 3000),
            s("grads", "only:remove-dupl-lineargradient,remove-dupl-radialgradient", PROM, 4000), s("filters", "rand", PROM, 3000)]),
        "C18" => ("C18", vec![c("single", iso_single, ISO, 15000), c("few", iso_few, ISO, 12000), c("none", iso_none, &["baseline"], 10000)]),
        "C19" => ("C19", vec![s("mixed", "rand", PIC, 12000), s("mixed", "nodef", PIC, 8000), s("default", "rand", PIC, 4000), s("style", "rand", PIC, 2500), s("refs", "rand", PIC, 2500), s("vis", "rand", PIC, 2500), s("units", "rand", PIC, 2500), s("corpus", "rand", PIC, 640), c("bent", crate::tame::bent, PIC, 10000)]),
        "C20" => ("C20", vec![s("mixed", "default", SPL, 5000), s("mixed", "rand", SPL, 5000), s("mixed", "nodef", SPL, 3000), s("paths", "rand", SPL, 5000), s("style", "rand", SPL, 3000), s("text", "rand", SPL, 3000), s("ts", "rand", SPL, 3000), s("css", "nodef", SPL, 2000), s("shapes", "rand", SPL, 2000), s("corpus", "rand", SPL, 320)]),
        "C21" => ("C21", vec![s("mixed", "rand", WF, 10000), s("mixed", "default", WFRE, 3000), s("paths", "rand", WFRE, 3000), s("text", "rand", WF, 4000), s("style", "rand", WFRE, 2500), s("grads", "rand", WFRE, 2500), s("css", "nodef", WFRE, 2500), s("corpus", "rand", WFRE, 640)]),
        "C22" => ("C22", vec![c("soup", fuzz::soup, &["total"], 20000), c("tame", crate::tame::tame, &["total"], 20000), c("whole", fuzz::whole, &["cli-total"], 4000), s("mixed", "rand", &["total"], 2000), s("mixed", "default", &["cli-total"], 500)]),
        "C23" => ("C23", vec![c("inject", crate::mon3::inject, &["refusal"], 20000), c("program", crate::mon3::inject, &["cli-refusal"], 1500)]),
        "C24" => ("C24", vec![c("files", cli_files, &["cli-files"], 4000), c("faults", cli_faults, &["cli-faults"], 4000)]),
        "C25" => ("C25", vec![s("mixed", "default", &["cli-same"], 400), s("mixed", "rand", &["cli-same"], 400), s("grads", "rand", &["cli-same"], 200), s("groups", "rand", &["cli-same"], 200), s("css", "rand", &["cli-same"], 100), s("refs", "rand", &["cli-same"], 200), s("mixed", "rand", &["determinism"], 4000)]),
        "C26" => ("C26", vec![s("mixed", "default", &["cli-multipass"], 1500), s("mixed", "rand", &["cli-multipass"], 1000), s("grads", "default", &["cli-multipass"], 800), s("groups", "default", &["cli-multipass"], 800), s("paths", "default", &["cli-multipass"], 800), s("ts", "default", &["cli-multipass"], 600), s("corpus", "default", &["cli-multipass"], 320)]),
        "C27" => ("C27", vec![c("options", cli_options, &["cli-options"], 500), c("illegal", cli_options, &["cli-illegal"], 3000), c("showcase", cli_show, &["cli-showcase"], 3 * (crate::showcase::SHOWS.len() + crate::showcase::CHOICES.len()) as u64)]),
        _ => return None,
    };
    Some(Prop { id, rule, streams })
}
