//! One small document per option: the documented effect is there when the option is on, and not when it is off.
use crate::cliruns::{exec, scratch};
use crate::mon::{bump, fail, trunc, Case, Ev, R};
use crate::rng::Rng;
use crate::style;
use crate::xml::{self, Doc};

pub struct Show { pub flag: &'static str, pub with: &'static [&'static str], pub doc: &'static str, pub on: fn(&Doc, &str) -> bool }

fn cnt(d: &Doc, t: &str) -> usize { d.elems().into_iter().filter(|&n| d.name(n) == t).count() }
fn at<'a>(d: &'a Doc, t: &str, a: &str) -> Option<&'a str> { d.elems().into_iter().find(|&n| d.name(n) == t).and_then(|n| d.attr(n, a)) }
fn has(d: &Doc, t: &str, a: &str) -> bool { at(d, t, a).is_some() }
fn any(d: &Doc, a: &str) -> bool { d.elems().into_iter().any(|n| d.attr(n, a).is_some()) }
fn prop(d: &Doc, t: &str, p: &str) -> Option<String> {
    let n = d.elems().into_iter().find(|&n| d.name(n) == t)?;
    d.attr(n, p).map(|s| s.to_string()).or_else(|| style::parse_decls(d.attr(n, "style")?).into_iter().find(|x| x.0 == p).map(|x| x.1))
}
fn pathd(d: &Doc) -> String { at(d, "path", "d").unwrap_or("").to_string() }

/// `NS` is replaced with the usual namespace declarations.
pub const SHOWS: &[Show] = &[
    Show { flag: "remove-comments", with: &[], doc: "<svg NS><!--c--><circle r='5'/></svg>", on: |_, s| !s.contains("<!--") },
    Show { flag: "remove-declarations", with: &[], doc: "<?xml version='1.0'?><svg NS><circle r='5'/></svg>", on: |_, s| !s.contains("<?xml") },
    Show { flag: "remove-nonsvg-elements", with: &[], doc: "<svg NS xmlns:s='urn:s'><s:a s:b='1'/><circle r='5'/></svg>", on: |d, _| cnt(d, "s:a") == 0 },
    Show { flag: "remove-unused-defs", with: &[], doc: "<svg NS><defs><linearGradient id='u'><stop offset='0'/></linearGradient></defs><circle r='5'/></svg>", on: |d, _| cnt(d, "linearGradient") == 0 },
    Show { flag: "convert-shapes", with: &[], doc: "<svg NS><rect width='5' height='6'/></svg>", on: |d, _| cnt(d, "rect") == 0 && cnt(d, "path") == 1 },
    Show { flag: "convert-shapes", with: &[], doc: "<svg NS><line x2='5' y2='6' stroke='red'/></svg>", on: |d, _| cnt(d, "line") == 0 && cnt(d, "path") == 1 },
    Show { flag: "convert-shapes", with: &[], doc: "<svg NS><polyline points='0 0 5 5 9 1'/></svg>", on: |d, _| cnt(d, "polyline") == 0 && cnt(d, "path") == 1 },
    Show { flag: "convert-shapes", with: &[], doc: "<svg NS><polygon points='0 0 5 5 9 1'/></svg>", on: |d, _| cnt(d, "polygon") == 0 && cnt(d, "path") == 1 },
    Show { flag: "remove-title", with: &[], doc: "<svg NS><title>T</title><circle r='5'><title>U</title></circle></svg>", on: |d, _| cnt(d, "title") == 0 },
    Show { flag: "remove-desc", with: &[], doc: "<svg NS><desc>T</desc><circle r='5'/></svg>", on: |d, _| cnt(d, "desc") == 0 },
    Show { flag: "remove-metadata", with: &[], doc: "<svg NS><metadata>T</metadata><circle r='5'/></svg>", on: |d, _| cnt(d, "metadata") == 0 },
    Show { flag: "remove-dupl-lineargradient", with: &[], doc: "<svg NS><defs><linearGradient id='a'><stop offset='0' stop-color='red'/><stop offset='1'/></linearGradient><linearGradient id='b'><stop offset='0' stop-color='red'/><stop offset='1'/></linearGradient></defs><circle r='5' fill='url(#a)'/><circle r='9' cx='30' fill='url(#b)'/></svg>", on: |d, _| cnt(d, "linearGradient") == 1 },
    Show { flag: "remove-dupl-radialgradient", with: &[], doc: "<svg NS><defs><radialGradient id='a'><stop offset='0' stop-color='red'/><stop offset='1'/></radialGradient><radialGradient id='b'><stop offset='0' stop-color='red'/><stop offset='1'/></radialGradient></defs><circle r='5' fill='url(#a)'/><circle r='9' cx='30' fill='url(#b)'/></svg>", on: |d, _| cnt(d, "radialGradient") == 1 },
    Show { flag: "remove-dupl-fegaussianblur", with: &[], doc: "<svg NS><defs><filter id='a'><feGaussianBlur stdDeviation='2'/></filter><filter id='b'><feGaussianBlur stdDeviation='2'/></filter></defs><circle r='5' filter='url(#a)'/><circle r='9' cx='30' filter='url(#b)'/></svg>", on: |d, _| cnt(d, "filter") == 1 },
    Show { flag: "ungroup-groups", with: &[], doc: "<svg NS><g><circle r='5'/></g></svg>", on: |d, _| cnt(d, "g") == 0 },
    Show { flag: "ungroup-groups", with: &[], doc: "<svg NS><g fill='red'><circle r='5'/></g></svg>", on: |d, _| cnt(d, "g") == 0 },
    Show { flag: "ungroup-defs", with: &[], doc: "<svg NS><defs><linearGradient id='a'><stop offset='0' stop-color='red'/><stop offset='1'/></linearGradient></defs><circle r='5' fill='url(#a)'/></svg>", on: |d, _| cnt(d, "defs") == 0 && cnt(d, "linearGradient") == 1 },
    Show { flag: "group-by-style", with: &["--indent=none"], doc: "<svg NS><g><circle r='1' fill='red' stroke='blue'/><circle r='2' fill='red' stroke='blue'/><circle r='3' fill='red' stroke='blue'/><circle r='4' fill='red' stroke='blue'/></g></svg>", on: |d, _| prop(d, "circle", "fill").is_none() },
    Show { flag: "merge-gradients", with: &[], doc: "<svg NS><defs><linearGradient id='a' xlink:href='#b' x1='.3'/><linearGradient id='b'><stop offset='0' stop-color='red'/><stop offset='1'/></linearGradient></defs><circle r='5' fill='url(#a)'/></svg>", on: |d, _| cnt(d, "linearGradient") == 1 },
    Show { flag: "regroup-gradient-stops", with: &[], doc: "<svg NS><defs><linearGradient id='a' x1='.1'><stop offset='0' stop-color='red'/><stop offset='1'/></linearGradient><linearGradient id='b' x1='.2'><stop offset='0' stop-color='red'/><stop offset='1'/></linearGradient></defs><circle r='5' fill='url(#a)'/><circle r='9' cx='30' fill='url(#b)'/></svg>", on: |d, _| cnt(d, "stop") == 2 },
    Show { flag: "remove-invalid-stops", with: &[], doc: "<svg NS><defs><linearGradient id='a'><stop offset='.5' stop-color='red'/><stop offset='.5' stop-color='red'/><stop offset='.5' stop-color='red'/><stop offset='1'/></linearGradient></defs><circle r='5' fill='url(#a)'/></svg>", on: |d, _| cnt(d, "stop") < 4 },
    Show { flag: "remove-invisible-elements", with: &[], doc: "<svg NS><circle r='5' display='none'/><path/><circle r='9'/></svg>", on: |d, _| cnt(d, "circle") == 1 && cnt(d, "path") == 0 },
    Show { flag: "resolve-use", with: &[], doc: "<svg NS><defs><circle id='c' r='5'/></defs><use xlink:href='#c' x='3'/></svg>", on: |d, _| cnt(d, "use") == 0 && cnt(d, "circle") == 1 },
    Show { flag: "remove-version", with: &[], doc: "<svg NS version='1.1' baseProfile='full'><circle r='5'/></svg>", on: |d, _| !has(d, "svg", "version") && !has(d, "svg", "baseProfile") },
    Show { flag: "remove-nonsvg-attributes", with: &[], doc: "<svg NS><circle r='5' data-x='1'/></svg>", on: |d, _| !any(d, "data-x") },
    Show { flag: "remove-unreferenced-ids", with: &[], doc: "<svg NS><circle r='5' id='nobody'/></svg>", on: |d, _| !any(d, "id") },
    Show { flag: "trim-ids", with: &[], doc: "<svg NS><defs><linearGradient id='a-long-name'><stop offset='0' stop-color='red'/><stop offset='1'/></linearGradient></defs><circle r='5' fill='url(#a-long-name)'/></svg>", on: |d, _| at(d, "linearGradient", "id").map_or(false, |i| i.len() == 1) },
    Show { flag: "remove-text-attributes", with: &[], doc: "<svg NS><circle r='5' font-size='7'/></svg>", on: |d, _| prop(d, "circle", "font-size").is_none() },
    Show { flag: "remove-unused-coordinates", with: &[], doc: "<svg NS x='5' y='6'><circle r='5'/></svg>", on: |d, _| !has(d, "svg", "x") && !has(d, "svg", "y") },
    Show { flag: "remove-unused-coordinates", with: &[], doc: "<svg NS><rect width='9' height='9' rx='2' ry='2'/></svg>", on: |d, _| has(d, "rect", "rx") && !has(d, "rect", "ry") },
    Show { flag: "remove-default-attributes", with: &[], doc: "<svg NS><circle r='5' cx='0' fill='black' stroke-width='1'/></svg>", on: |d, _| !has(d, "circle", "cx") && prop(d, "circle", "fill").is_none() && prop(d, "circle", "stroke-width").is_none() },
    Show { flag: "remove-xmlns-xlink-attribute", with: &[], doc: "<svg NS><circle r='5'/></svg>", on: |d, _| !has(d, "svg", "xmlns:xlink") },
    Show { flag: "remove-needless-attributes", with: &[], doc: "<svg NS><circle r='5' points='1 2' fill='none' fill-rule='evenodd'/></svg>", on: |d, _| !has(d, "circle", "points") && prop(d, "circle", "fill-rule").is_none() },
    Show { flag: "remove-gradient-attributes", with: &["--remove-default-attributes=false"], doc: "<svg NS><defs><linearGradient id='a' gradientUnits='userSpaceOnUse' xlink:href='#b' x1='3'/><linearGradient id='b' gradientUnits='userSpaceOnUse'><stop offset='0' stop-color='red'/><stop offset='1'/></linearGradient></defs><circle r='5' fill='url(#a)'/><circle r='7' cx='40' fill='url(#b)'/></svg>", on: |d, _| d.elems().into_iter().filter(|&n| d.attr(n, "gradientUnits").is_some()).count() == 1 },
    Show { flag: "apply-transform-to-gradients", with: &[], doc: "<svg NS><defs><linearGradient id='a' gradientUnits='userSpaceOnUse' x1='1' y1='2' x2='3' y2='4' gradientTransform='translate(10 20)'><stop offset='0' stop-color='red'/><stop offset='1'/></linearGradient></defs><circle r='5' fill='url(#a)'/></svg>", on: |d, _| !has(d, "linearGradient", "gradientTransform") && at(d, "linearGradient", "x1") == Some("11") },
    Show { flag: "apply-transform-to-shapes", with: &[], doc: "<svg NS><circle r='5' transform='translate(10 20)'/></svg>", on: |d, _| !any(d, "transform") && at(d, "circle", "cx") == Some("10") },
    Show { flag: "remove-unresolved-classes", with: &[], doc: "<svg NS><style>.k{fill:red}</style><circle class='k nobody' r='5'/></svg>", on: |_, s| !s.contains("nobody") },
    Show { flag: "paths-to-relative", with: &[], doc: "<svg NS><path d='M 100 100 L 101 102 L 103 101'/></svg>", on: |d, _| pathd(d).contains('l') && !pathd(d).contains('L') },
    Show { flag: "remove-unused-segments", with: &["--paths-to-relative=true"], doc: "<svg NS><path d='M 1 1 M 10 10 L 20 10 L 20 10 L 20 30'/></svg>", on: |d, _| crate::geom::parse_path(&pathd(d)).map_or(false, |p| format!("{:?}", p).len() > 0) && pathd(d).matches(|c: char| c == 'm' || c == 'M').count() == 1 },
    Show { flag: "convert-segments", with: &["--paths-to-relative=true"], doc: "<svg NS><path d='M 0 0 C 1 5 8 8 10 10 C 12 12 20 30 40 0'/></svg>", on: |d, _| pathd(d).contains('s') },
    Show { flag: "apply-transform-to-paths", with: &["--paths-to-relative=true"], doc: "<svg NS><path d='M 10 10 L 20 10 L 20 30' transform='translate(5 6)'/></svg>", on: |d, _| !any(d, "transform") },
    Show { flag: "trim-paths", with: &[], doc: "<svg NS><path d='M 10 -10 L 20 -10 L 20 30'/></svg>", on: |d, _| !pathd(d).contains(' ') || pathd(d).len() < 22 },
    Show { flag: "join-arcto-flags", with: &["--trim-paths=true"], doc: "<svg NS><path d='M 10 10 A 5 6 0 1 0 20 30'/></svg>", on: |d, _| { let p = pathd(d); p.contains("1020") || p.contains("10 20") || p.contains("1010") } },
    Show { flag: "remove-dupl-cmd-in-paths", with: &[], doc: "<svg NS><path d='M 10 10 L 20 11 L 20 30 L 5 5'/></svg>", on: |d, _| pathd(d).matches('L').count() == 1 },
    Show { flag: "use-implicit-cmds", with: &[], doc: "<svg NS><path d='M 10 10 L 20 11'/></svg>", on: |d, _| pathd(d).matches('L').count() == 0 },
    Show { flag: "trim-colors", with: &[], doc: "<svg NS><circle r='5' fill='#aabbcc'/></svg>", on: |d, _| prop(d, "circle", "fill").as_deref() == Some("#abc") },
    Show { flag: "append-newline", with: &[], doc: "<svg NS><circle r='5'/></svg>", on: |_, s| s.ends_with('\n') },
    Show { flag: "simplify-transforms", with: &[], doc: "<svg NS><path d='M 1 2 L 3 4' transform='matrix(1 0 0 1 10 20)'/></svg>", on: |_, s| s.contains("translate(") },
];

/// Options with other values: (arguments, document, effect)
pub const CHOICES: &[(&[&str], &str, fn(&Doc, &str) -> bool)] = &[
    (&["--paths-to-relative=true", "--convert-segments=true"], "<svg NS><path d='M 10 10 L 20 10 L 20 30 L 5 5'/></svg>", |d, _| pathd(d).contains('h') && pathd(d).contains('v')),
    (&["--indent=none"], "<svg NS><circle r='5'/><circle r='6'/></svg>", |_, s| !s.contains('\n')),
    (&["--indent=0"], "<svg NS><circle r='5'/><circle r='6'/></svg>", |_, s| s.contains("\n<circle")),
    (&["--indent=1"], "<svg NS><circle r='5'/><circle r='6'/></svg>", |_, s| s.contains("\n <circle")),
    (&["--indent=2"], "<svg NS><circle r='5'/><circle r='6'/></svg>", |_, s| s.contains("\n  <circle")),
    (&["--indent=3"], "<svg NS><circle r='5'/><circle r='6'/></svg>", |_, s| s.contains("\n   <circle")),
    (&["--indent=4"], "<svg NS><circle r='5'/><circle r='6'/></svg>", |_, s| s.contains("\n    <circle")),
    (&["--indent=tabs"], "<svg NS><circle r='5'/><circle r='6'/></svg>", |_, s| s.contains("\n\t<circle")),
    (&["--list-separator=space"], "<svg NS><polygon points='1,2 3,4 5,9'/></svg>", |d, _| at(d, "polygon", "points") == Some("1 2 3 4 5 9")),
    (&["--list-separator=comma"], "<svg NS><polygon points='1,2 3,4 5,9'/></svg>", |d, _| at(d, "polygon", "points") == Some("1,2,3,4,5,9")),
    (&["--list-separator=comma-space"], "<svg NS><polygon points='1,2 3,4 5,9'/></svg>", |d, _| at(d, "polygon", "points") == Some("1, 2, 3, 4, 5, 9")),
    (&["--join-style-attributes=no"], "<svg NS><circle r='5' fill='#123456' stroke='#654321' stroke-width='3' stroke-linecap='round' fill-opacity='.5' stroke-opacity='.5'/></svg>", |d, _| !any(d, "style") && any(d, "stroke-linecap")),
    (&["--join-style-attributes=some"], "<svg NS><circle r='5' fill='#123456' stroke='#654321' stroke-width='3' stroke-linecap='round' fill-opacity='.5' stroke-opacity='.5'/></svg>", |d, _| any(d, "style") && !any(d, "stroke-linecap")),
    (&["--join-style-attributes=some"], "<svg NS><circle r='5' fill='#123456'/></svg>", |d, _| !any(d, "style")),
    (&["--join-style-attributes=all"], "<svg NS><circle r='5' fill='#123456'/></svg>", |d, _| any(d, "style") && !any(d, "fill")),
    (&["--coordinates-precision=2"], "<svg NS><circle r='5.12345678912345' cx='1.987654321'/></svg>", |d, _| at(d, "circle", "r") == Some("5.12") && at(d, "circle", "cx") == Some("1.99")),
    (&[], "<svg NS><circle r='5.12345678912345'/></svg>", |d, _| at(d, "circle", "r") == Some("5.123457")),
    (&["--coordinates-precision=12"], "<svg NS><circle r='5.1234567891'/></svg>", |d, _| at(d, "circle", "r") == Some("5.1234567891")),
    (&["--properties-precision=1"], "<svg NS><circle r='5' stroke-width='1.2345' opacity='.5678'/></svg>", |d, _| prop(d, "circle", "stroke-width").as_deref() == Some("1.2") && prop(d, "circle", "opacity").as_deref() == Some(".6")),
    (&[], "<svg NS><circle r='5' stroke-width='1.23456789'/></svg>", |d, _| prop(d, "circle", "stroke-width").as_deref() == Some("1.234568")),
    (&["--transforms-precision=3", "--coordinates-precision=2"], "<svg NS><path d='M 1 2 L 3 4' transform='matrix(.123456 .2 .3 .987654 1.23456 7.65432)'/></svg>", |d, _| at(d, "path", "transform") == Some("matrix(.123 .2 .3 .988 1.23 7.65)")),
    (&[], "<svg NS><path d='M 1 2 L 3 4' transform='matrix(.123456789123 .2 .3 .987654 1.23456789 7.65432)'/></svg>", |d, _| at(d, "path", "transform") == Some("matrix(.12345679 .2 .3 .987654 1.234568 7.65432)")),
    (&["--paths-coordinates-precision=1"], "<svg NS><path d='M 1.23 2.34 L 3.45 4.56'/></svg>", |d, _| crate::scene::numlist(&pathd(d).replace(['M', 'L'], " ")) == vec![1.2, 2.3, 3.5, 4.6]),
    (&[], "<svg NS><path d='M 1.23456789123 2.34 L 3.45 4.56'/></svg>", |d, _| pathd(d).contains("1.23456789 ")),
];

fn go(doc: &str, args: &[String]) -> Result<String, String> {
    let w = scratch();
    std::fs::write(w.join("d/in.svg"), doc).unwrap();
    let mut a = args.to_vec();
    for x in ["--allow-bigger-file", "--quiet", "in.svg", "out.svg"] { a.push(x.into()); }
    let d = exec(&w, &a, None, std::time::Duration::from_secs(30));
    std::fs::read_to_string(w.join("d/out.svg")).map_err(|_| d.how())
}

/// c.seed selects the entry; c.doc is unused.
pub fn run(c: &Case, ev: &mut Ev) -> R {
    let mut r = Rng::from(c.seed, "showcase", 0);
    let k = (c.seed % (SHOWS.len() + CHOICES.len()) as u64) as usize;
    let ns = "xmlns='http://www.w3.org/2000/svg' xmlns:xlink='http://www.w3.org/1999/xlink'";
    let parse = |o: &str| xml::parse(o).map_err(|e| format!("{} in {}", e, trunc(o, 200)));
    if k < SHOWS.len() {
        let s = &SHOWS[k];
        let doc = s.doc.replace("NS", ns);
        let on = r.pick(&["true", "yes", "y"]);
        let off = r.pick(&["false", "no", "n"]);
        let mk = |f: &str| { let mut a: Vec<String> = vec!["--no-defaults".into(), "--join-style-attributes=no".into()]; for w in s.with { a.push(w.to_string()); } if !f.is_empty() { a.push(format!("--{}={}", s.flag, f)); } a };
        for (f, want) in [(on, true), (off, false), ("", false)] {
            let o = match go(&doc, &mk(f)) { Ok(o) => o, Err(e) => return fail("refused", format!("{}={}: {}", s.flag, f, e)) };
            let d = match parse(&o) { Ok(d) => d, Err(e) => return fail("malformed", e) };
            bump(ev, &format!("showcase.{}", s.flag), 1);
            if (s.on)(&d, &o) != want { return fail("effect", format!("--no-defaults --{}={}: the documented effect is {}; {} > {}", s.flag, f, if want { "missing" } else { "there" }, s.doc, trunc(&o, 400))); }
        }
    } else {
        let (a, doc, on) = &CHOICES[k - SHOWS.len()];
        let doc = doc.replace("NS", ns);
        let mut args: Vec<String> = vec!["--no-defaults".into()];
        if !a.iter().any(|x| x.starts_with("--join")) { args.push("--join-style-attributes=no".into()); }
        args.extend(a.iter().map(|s| s.to_string()));
        let o = match go(&doc, &args) { Ok(o) => o, Err(e) => return fail("refused", format!("{:?}: {}", args, e)) };
        let d = match parse(&o) { Ok(d) => d, Err(e) => return fail("malformed", e) };
        bump(ev, &format!("showcase.{}", a.first().map_or("defaults", |x| x.split('=').next().unwrap())), 1);
        if !on(&d, &o) { return fail("effect", format!("{:?}: {} > {}", args, doc, trunc(&o, 400))); }
    }
    R::Ok
}
