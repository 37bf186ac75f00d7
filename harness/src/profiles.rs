use crate::gen::Prof;
use crate::rng::Rng;

pub fn get(name: &str, r: &mut Rng) -> Prof {
    let d = Prof::default();
    match name {
        "paths" => Prof { elems: 3, depth: 1, group: 10, path: 100, path_len: 12, style: 20, gstyle: 10, transform: 15, ..d },
        "shapes" => Prof { path: 25, elems: 5, ..d },
        "groups" => Prof { elems: 6, depth: 4, group: 60, gstyle: 35, opacity: 25, path_len: 4, ..d },
        "grads" => Prof { elems: 4, grad: 70, grads: 4, ghref: 50, path_len: 4, ..d },
        "refs" => Prof { elems: 4, clip: 25, mask: 20, pattern: 20, usee: 25, symbol: 1, marker: 15, path_len: 4, grad: 15, ..d },
        "text" => Prof { elems: 4, text: 70, usee: 20, path_len: 3, ..d },
        "vis" => Prof { elems: 6, depth: 3, group: 50, invisible: 45, switch: 25, clip: 10, mask: 6, usee: 12, grad: 10, filter: 10, opacity: 10, path_len: 3, defaults: 15, ids: 30, ..d },
        "links" => Prof { elems: 6, depth: 3, group: 55, link: 35, switch: 15, nested: 20, image: 20, path_len: 3, ..d },
        "filters" => Prof { elems: 4, filter: 45, path_len: 3, clip: 6, usee: 8, ..d },
        "units" => Prof { elems: 6, units: 45, path: 15, path_len: 3, nested: 8, grad: 15, pattern: 10, clip: 10, ..d },
        "unitts" => Prof { elems: 5, group: 30, units: 45, path: 15, path_len: 3, nested: 4, grad: 15, transform: 60, ts_any: 45, stroke: 50, ..d },
        "style" => { let cur = r.p(50); Prof { elems: 6, depth: 3, group: 50, gstyle: 50, style: 50, inherit: 12, current: if cur { 15 } else { 0 }, defaults: 35, invisible: 10, css: 30, style_attr: 40, usee: 10, path_len: 3, ..d } }
        "mixed" => { let cur = r.p(50); Prof { elems: 6, depth: 3, group: 35, grad: 20, pattern: 6, clip: 8, mask: 6, marker: 6, filter: 8, usee: 12, symbol: 1, nested: 5, text: 12, image: 6,
            link: 6, switch: 5, css: 20, inherit: 3, current: if cur { 4 } else { 0 }, invisible: 10, units: 8, junk: 10, path_len: 5, entities: 3, ..d } }
        "ts" => Prof { elems: 5, depth: 3, group: 45, path: 35, transform: 60, ts_any: 45, path_len: 5, grad: 25, pattern: 8, clip: 8, usee: 8, nested: 4, text: 4, gstyle: 15, style: 25, stroke: 60, ..d },
        "defaults" => { let cur = r.p(30); Prof { elems: 6, depth: 3, group: 50, gstyle: 50, style: 40, defaults: 60, inherit: 4, current: if cur { 6 } else { 0 }, grad: 20, usee: 12, marker: 6, clip: 8, mask: 5, pattern: 6, filter: 8, text: 10, symbol: 1, nested: 5, image: 5, link: 6, switch: 5, path_len: 3, textattrs: 30, ..d } }
        "inherit" => Prof { elems: 6, depth: 4, group: 55, gstyle: 45, style: 40, inherit: 35, current: 25, usee: 12, grad: 10, clip: 6, mask: 5, pattern: 5, marker: 5, filter: 6, text: 8, symbol: 1, path_len: 3, style_attr: 30, css: 20, ..d },
        "ids" => Prof { elems: 8, depth: 3, group: 40, grad: 30, clip: 15, mask: 8, pattern: 8, marker: 8, filter: 10, usee: 25, symbol: 1, text: 8, link: 8, ids: 80, unused_defs: 50, inline_defs: 40, path_len: 3, ..d },
        "css" => Prof { elems: 5, css: 100, style_attr: 50, ..d },
        _ => { let _ = r; d }
    }
}
pub const NAMES: &[&str] = &["paths", "shapes", "groups", "grads", "refs", "text", "vis", "links", "filters", "units", "style", "mixed", "ts", "defaults", "inherit", "ids", "css"];
