//! Runs the real cleaner (library entry points used by the command line tool) on a document.
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

use svgcleaner::{cleaner, cli};

thread_local! { pub static PANIC: RefCell<String> = RefCell::new(String::new()); static INSIDE: std::cell::Cell<bool> = std::cell::Cell::new(false); }

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file().rsplit('/').take(3).collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>().join("/"), l.line())).unwrap_or_default();
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() { s.to_string() }
            else if let Some(s) = i.payload().downcast_ref::<String>() { s.clone() } else { "?".into() };
        if !INSIDE.with(|i| i.get()) { eprintln!("svgmon itself panicked: {} at {}", msg, loc); std::process::exit(2); }
        PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", msg, loc));
    }));
}

#[derive(Clone, Debug)]
pub enum Out { Ok(String), ParseErr(String), CleanErr(String), Panic(String), BadArgs(String) }

pub const FLAGS: &[(&str, bool)] = &[
    ("remove-comments", true), ("remove-declarations", true), ("remove-nonsvg-elements", true), ("remove-unused-defs", true), ("convert-shapes", true),
    ("remove-title", true), ("remove-desc", true), ("remove-metadata", true), ("remove-dupl-lineargradient", true), ("remove-dupl-radialgradient", true),
    ("remove-dupl-fegaussianblur", true), ("ungroup-groups", true), ("ungroup-defs", true), ("group-by-style", true), ("merge-gradients", true),
    ("regroup-gradient-stops", true), ("remove-invalid-stops", true), ("remove-invisible-elements", true), ("resolve-use", true), ("remove-version", true),
    ("remove-nonsvg-attributes", true), ("remove-unreferenced-ids", true), ("trim-ids", true), ("remove-text-attributes", true), ("remove-unused-coordinates", true),
    ("remove-default-attributes", true), ("remove-xmlns-xlink-attribute", true), ("remove-needless-attributes", true), ("remove-gradient-attributes", false),
    ("apply-transform-to-gradients", true), ("apply-transform-to-shapes", true), ("remove-unresolved-classes", true),
    ("paths-to-relative", true), ("remove-unused-segments", true), ("convert-segments", true), ("apply-transform-to-paths", false), ("trim-paths", true),
    ("join-arcto-flags", false), ("remove-dupl-cmd-in-paths", true), ("use-implicit-cmds", true), ("trim-colors", true), ("append-newline", false), ("simplify-transforms", true),
];

pub fn to_args(a: &[String]) -> Vec<String> {
    let mut v = vec!["svgcleaner".to_string()];
    v.extend(a.iter().cloned());
    v.push("in.svg".into());
    v.push("out.svg".into());
    v
}

/// Parse, clean and write exactly as the command line tool does (one pass).
pub fn clean(text: &str, args: &[String]) -> Out {
    PANIC.with(|p| p.borrow_mut().clear());
    INSIDE.with(|i| i.set(true));
    let r = catch_unwind(AssertUnwindSafe(|| {
        let m = match cli::prepare_app().get_matches_from_safe(to_args(args)) { Ok(m) => m, Err(e) => return Out::BadArgs(e.to_string()) };
        if !cli::check_values(&m) { return Out::BadArgs("check_values".into()); }
        let po = cli::gen_parse_options(&m);
        let wo = cli::gen_write_options(&m);
        let co = cli::gen_cleaning_options(&m);
        let doc = match cleaner::parse_data(text, &po) { Ok(d) => d, Err(e) => return Out::ParseErr(e.to_string()) };
        // not dropped when the cleaner panics: the destructor can panic again, which aborts the process
        let mut doc = std::mem::ManuallyDrop::new(doc);
        let res = cleaner::clean_doc(&mut doc, &co, &wo);
        let mut buf = Vec::new();
        if res.is_ok() { cleaner::write_buffer(&doc, &wo, &mut buf); }
        drop(std::mem::ManuallyDrop::into_inner(doc));
        if let Err(e) = res { return Out::CleanErr(e.to_string()); }
        match String::from_utf8(buf) { Ok(s) => Out::Ok(s), Err(_) => Out::Panic("output is not valid UTF-8".into()) }
    }));
    INSIDE.with(|i| i.set(false));
    match r {
        Ok(o) => o,
        Err(_) => Out::Panic(PANIC.with(|p| p.borrow().clone())),
    }
}
