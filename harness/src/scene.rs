//! Builds a flat, fully resolved display list from an SVG document and evaluates it at points.
//! This is the reference semantics the monitors judge the cleaner's output with.
use crate::geom::*;
use crate::style::*;
use crate::xml::Doc;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

pub type Rgba = [f64; 4]; // premultiplied

#[derive(Clone, Debug)]
pub struct Stop { pub off: f64, pub c: [f64; 3], pub a: f64 }

#[derive(Clone, Debug)]
pub enum Paint {
    None,
    Color([f64; 3]),
    Lin { inv: Mat, p1: Pt, p2: Pt, spread: u8, stops: Rc<Vec<Stop>> },
    Rad { inv: Mat, c: Pt, r: f64, f: Pt, spread: u8, stops: Rc<Vec<Stop>> },
    Pat { inv: Mat, rect: [f64; 4], items: Rc<Vec<Item>> },
}

#[derive(Clone, Debug)]
pub struct Draw {
    pub ctm: Mat,
    pub inv: Option<Mat>,
    pub flat: Rc<Flat>,
    pub fill: Paint,
    pub evenodd: bool,
    pub fill_op: f64,
    pub stroke: Paint,
    pub stroke_op: f64,
    pub sg: StrokeGeom,
    pub runs: Rc<StrokeRuns>,
    pub aabb: Option<[f64; 4]>,
    pub hints: String,
    pub link: String,
    pub painted: bool,
    pub src: usize,
}

#[derive(Clone, Debug)]
pub struct Glyph {
    pub ch: char,
    pub m: Mat, // maps glyph space (1 unit = 1em, origin at baseline) to root
    pub key: String,
    pub fill: Paint,
    pub fill_op: f64,
    pub stroke: Paint,
    pub stroke_op: f64,
    pub sw: f64,
    pub evisible: bool,
    pub link: String,
}

#[derive(Clone, Debug)]
pub struct Image { pub ctm: Mat, pub rect: [f64; 4], pub href: String, pub par: String, pub hints: String, pub link: String, pub aabb: [f64; 4] }

#[derive(Clone, Debug, PartialEq)]
pub enum Tok { N(f64), S(String) }

#[derive(Clone, Debug, Default)]
pub struct Group {
    pub opacity: f64,
    pub clip: Option<Rc<Clip>>,
    pub mask: Option<Rc<MaskR>>,
    pub filter: Option<Rc<Vec<Tok>>>,
    pub vis_aabb: Option<[f64; 4]>,
    /// an empty group of the document itself: its filter can still paint
    pub bare: bool,
    pub items: Vec<Item>,
}

#[derive(Clone, Debug)]
pub struct Clip { pub own: Option<Rc<Clip>>, pub shapes: Vec<Item>, pub rect: Option<(Option<Mat>, [f64; 4])> }
#[derive(Clone, Debug)]
pub struct MaskR { pub inv: Option<Mat>, pub rect: [f64; 4], pub group: Group, pub linear: bool }

#[derive(Clone, Debug)]
pub enum Item { G(Box<Group>), D(Box<Draw>), T(Rc<Vec<Glyph>>), I(Box<Image>) }

pub struct Scene {
    pub root: Group,
    pub rootkey: Vec<Tok>,
    pub unsupported: Vec<String>,
    pub count: usize,
    /// what no painted item shows: fonts, views, colour profiles
    pub fonts: Vec<Vec<Tok>>,
    pub views: Vec<Vec<Tok>>,
}

fn is_shown(i: &Item) -> bool {
    match i {
        Item::G(g) => g.clip.is_none() && g.mask.is_none() && g.filter.is_none() && g.opacity > 0.0 && g.items.iter().any(is_shown),
        Item::D(d) => d.painted && d.aabb.map_or(false, |b| b[2] > b[0] && b[3] > b[1]),
        Item::T(g) => g.iter().any(|g| g.evisible),
        Item::I(_) => true,
    }
}

struct B<'a> {
    d: &'a Doc,
    css: Css,
    ids: HashMap<&'a str, usize>,
    vp: Vec<(f64, f64)>,
    unsupported: RefCell<Vec<String>>,
    depth: RefCell<usize>,
    count: RefCell<usize>,
    mk: RefCell<Vec<usize>>,
    link: RefCell<Vec<String>>,
}

const MAX_DEPTH: usize = 200;
const MAX_COUNT: usize = 20000;

fn num(s: &str) -> Option<f64> { parse_len(s).map(|x| x.0) }

pub fn url_ref(s: &str) -> Option<&str> {
    let s = s.trim();
    let r = s.strip_prefix("url(")?;
    let e = r.find(')')?;
    let r = r[..e].trim().trim_matches(|c| c == '\'' || c == '"');
    r.strip_prefix('#')
}

impl<'a> B<'a> {
    fn uns(&self, s: &str) { let mut u = self.unsupported.borrow_mut(); if !u.iter().any(|x| x == s) { u.push(s.to_string()); } }

    fn viewport(&self) -> (f64, f64) { *self.vp.last().unwrap() }

    fn len(&self, s: &str, axis: u8, fs: f64) -> f64 {
        match parse_len(s) {
            None => { 0.0 }
            Some((v, u)) => match u {
                "%" => {
                    let (w, h) = self.viewport();
                    v / 100.0 * match axis { 0 => w, 1 => h, _ => ((w * w + h * h) / 2.0).sqrt() }
                }
                "em" => v * fs,
                "ex" => v * fs / 2.0,
                _ => abs_len(v, u),
            },
        }
    }
    fn alen(&self, n: usize, a: &str, axis: u8, st: &Style, def: f64) -> f64 {
        match self.d.attr(n, a) { Some(s) if !s.trim().is_empty() => self.len(s, axis, st.font_px), _ => def }
    }

    fn href(&self, n: usize) -> Option<&'a str> { self.d.attr(n, "xlink:href") }
    /// The address of a link; ids inside the document are not compared.
    fn link_target(&self, n: usize) -> String {
        match self.href(n) {
            Some(h) if h.trim().starts_with('#') => match self.href_local(n) {
                // a link to something that is never shown leads nowhere
                Some(t) if *self.depth.borrow() < 100 && self.d.svg(t) != "a" && self.in_picture(t) => {
                    let mut items = vec![];
                    *self.depth.borrow_mut() += 50;
                    self.node(t, &Mat::ID, &self.parent_style(t), &mut items, None);
                    *self.depth.borrow_mut() -= 50;
                    if items.iter().any(is_shown) { "#local".into() } else { "#any".into() }
                }
                Some(_) => "#any".into(),
                None => String::new(),
            },
            h => h.unwrap_or("").to_string(),
        }
    }
    fn in_picture(&self, n: usize) -> bool {
        let mut k = n;
        while let Some(p) = self.d.parent(k) {
            if !matches!(self.d.svg(p), "svg" | "g" | "a") { return false; }
            k = p;
        }
        true
    }
    fn href_local(&self, n: usize) -> Option<usize> {
        self.href(n).and_then(|h| h.trim().strip_prefix('#')).and_then(|i| self.ids.get(i).cloned())
    }

    fn doc_style(&self, n: usize) -> Style {
        let mut chain = vec![n];
        let mut k = n;
        while let Some(p) = self.d.parent(k) { chain.push(p); k = p; }
        let mut s = Style::root();
        for &e in chain.iter().rev() { s = compute(self.d, &self.css, e, &s); }
        s
    }
    fn parent_style(&self, n: usize) -> Style {
        match self.d.parent(n) { Some(p) => self.doc_style(p), None => Style::root() }
    }

    fn transform_attr(&self, n: usize, a: &str) -> Mat {
        match self.d.attr(n, a) {
            Some(s) => match parse_transform(s) { Some(m) => m, None => { self.uns("bad transform"); Mat::ID } },
            None => Mat::ID,
        }
    }

    fn unitval(&self, s: &str, st: &Style) -> f64 {
        let _ = st;
        match parse_len(s) { Some((v, "%")) => v / 100.0, Some((v, _)) => v, None => 0.0 }
    }

    // ---------------------------------------------------------------- tree
    fn children(&self, n: usize, ctm: &Mat, st: &Style, out: &mut Vec<Item>) {
        for &c in self.d.children(n) {
            if self.d.is_elem(c) { self.node(c, ctm, st, out, None); }
        }
    }

    /// `use_size`: width/height override from a use element for svg/symbol
    fn node(&self, n: usize, ctm: &Mat, pst: &Style, out: &mut Vec<Item>, use_size: Option<(Option<String>, Option<String>)>) {
        if *self.depth.borrow() > MAX_DEPTH { self.uns("depth"); return; }
        if *self.count.borrow() > MAX_COUNT { self.uns("count"); return; }
        *self.depth.borrow_mut() += 1;
        *self.count.borrow_mut() += 1;
        self.node2(n, ctm, pst, out, use_size);
        *self.depth.borrow_mut() -= 1;
    }

    fn node2(&self, n: usize, ctm: &Mat, pst: &Style, out: &mut Vec<Item>, use_size: Option<(Option<String>, Option<String>)>) {
        let tag = self.d.svg(n);
        match tag {
            "g" | "a" | "switch" | "svg" | "use" | "symbol" | "path" | "rect" | "circle" | "ellipse" | "line" | "polyline" | "polygon"
            | "text" | "image" | "foreignObject" => {}
            _ => return,
        }
        if tag == "symbol" && use_size.is_none() { return; }
        let st = compute(self.d, &self.css, n, pst);
        if st.get("display") == "none" { return; }
        let m = if tag == "svg" || tag == "symbol" { *ctm } else { ctm.mul(&self.transform_attr(n, "transform")) };
        let mut items = vec![];
        match tag {
            "g" => self.children(n, &m, &st, &mut items),
            "a" => {
                let lt = self.link_target(n); self.link.borrow_mut().push(lt);
                self.children(n, &m, &st, &mut items);
                self.link.borrow_mut().pop();
            }
            "switch" => {
                for &c in self.d.children(n) {
                    if !self.d.is_elem(c) || self.d.svg(c).is_empty() { continue; }
                    let ok = |a: &str| self.d.attr(c, a).is_none();
                    if ok("requiredFeatures") && ok("systemLanguage") && ok("requiredExtensions") {
                        self.node(c, &m, &st, &mut items, None);
                        break;
                    }
                }
            }
            "svg" | "symbol" => {
                let (x, y) = if tag == "svg" { (self.alen(n, "x", 0, &st, 0.0), self.alen(n, "y", 1, &st, 0.0)) } else { (0.0, 0.0) };
                let (vw, vh) = self.viewport();
                let (uw, uh) = use_size.unwrap_or((None, None));
                let w = match &uw { Some(s) => self.len(s, 0, st.font_px), None => if tag == "svg" { self.alen(n, "width", 0, &st, vw) } else { vw } };
                let h = match &uh { Some(s) => self.len(s, 1, st.font_px), None => if tag == "svg" { self.alen(n, "height", 1, &st, vh) } else { vh } };
                if w <= 0.0 || h <= 0.0 { return; }
                let base = m.mul(&Mat::tr(x, y));
                let (vm, nvp) = self.viewbox_map(n, w, h);
                let m2 = base.mul(&vm);
                let mut inner = vec![];
                self.with_vp(nvp, |b| b.children(n, &m2, &st, &mut inner));
                let ov = st.get("overflow");
                if ov == "visible" || ov == "auto" { items = inner; } else {
                    let clip = Clip { own: None, shapes: vec![], rect: Some((base.inv(), [0.0, 0.0, w, h])) };
                    items.push(Item::G(Box::new(Group { opacity: 1.0, clip: Some(Rc::new(clip)), items: inner, ..Default::default() })));
                }
            }
            "use" => {
                if let Some(t) = self.href_local(n) {
                    let mu = m.mul(&Mat::tr(self.alen(n, "x", 0, &st, 0.0), self.alen(n, "y", 1, &st, 0.0)));
                    let tt = self.d.svg(t);
                    let us = if tt == "svg" || tt == "symbol" {
                        Some((self.d.attr(n, "width").map(|s| s.to_string()), self.d.attr(n, "height").map(|s| s.to_string())))
                    } else { None };
                    self.node(t, &mu, &st, &mut items, us);
                }
            }
            "text" => self.text(n, &m, &st, &mut items),
            // its content is not SVG; only the place of it is compared
            "foreignObject" => {
                let r = [self.alen(n, "x", 0, &st, 0.0), self.alen(n, "y", 1, &st, 0.0), self.alen(n, "width", 0, &st, 0.0), self.alen(n, "height", 1, &st, 0.0)];
                if st.get("visibility") == "visible" && r[2] > 0.0 && r[3] > 0.0 {
                    let bb = map_bbox([r[0], r[1], r[0] + r[2], r[1] + r[3]], &m);
                    items.push(Item::I(Box::new(Image { ctm: m, rect: r, href: "foreignObject".into(), par: String::new(), hints: hints(&st, &["pointer-events", "cursor"]), link: self.curlink(), aabb: bb })));
                }
            }
            "image" => {
                let vis = st.get("visibility") == "visible";
                let r = [self.alen(n, "x", 0, &st, 0.0), self.alen(n, "y", 1, &st, 0.0), self.alen(n, "width", 0, &st, 0.0), self.alen(n, "height", 1, &st, 0.0)];
                if vis && r[2] > 0.0 && r[3] > 0.0 && self.href(n).is_some() {
                    let bb = map_bbox([r[0], r[1], r[0] + r[2], r[1] + r[3]], &m);
                    let par = self.d.attr(n, "preserveAspectRatio").unwrap_or("xMidYMid meet").trim().to_string();
                    items.push(Item::I(Box::new(Image {
                        ctm: m, rect: r, href: self.href(n).unwrap().chars().filter(|c| !c.is_whitespace()).collect(), par: norm_par(&par),
                        hints: hints(&st, &["image-rendering", "pointer-events", "cursor"]), link: self.curlink(), aabb: bb,
                    })));
                }
            }
            _ => self.shape(n, tag, &m, &st, &mut items),
        }
        // a shape that paints nothing has no layer (unlike a container, whose filter can still produce something)
        let container = matches!(tag, "g" | "a" | "switch" | "svg" | "symbol" | "text");
        if tag == "use" && self.href_local(n).is_none() { return; }
        if !container && !items.iter().any(|i| match i { Item::D(d) => paints(d), _ => true }) {
            out.extend(items);
            return;
        }
        // layer
        self.layer(n, &m, &st, items, out);
    }

    fn curlink(&self) -> String { self.link.borrow().last().cloned().unwrap_or_default() }

    fn with_vp<F: FnOnce(&B<'a>)>(&self, vp: (f64, f64), f: F) {
        // cheap clone of the builder with another viewport
        let mut v = self.vp.clone();
        v.push(vp);
        let nb = B {
            d: self.d, css: Css { rules: self.css.rules.clone(), unsupported: false }, ids: self.ids.clone(), vp: v,
            unsupported: RefCell::new(vec![]), depth: RefCell::new(*self.depth.borrow()), count: RefCell::new(*self.count.borrow()),
            mk: RefCell::new(self.mk.borrow().clone()),
            link: RefCell::new(self.link.borrow().clone()),
        };
        f(&nb);
        *self.count.borrow_mut() = *nb.count.borrow();
        for s in nb.unsupported.borrow().iter() { self.uns(s); }
    }

    fn viewbox_map(&self, n: usize, w: f64, h: f64) -> (Mat, (f64, f64)) {
        if let Some(vb) = self.d.attr(n, "viewBox") {
            let v = numlist(vb);
            if v.len() == 4 && v[2] > 0.0 && v[3] > 0.0 {
                return (par_map(&v, w, h, self.d.attr(n, "preserveAspectRatio").unwrap_or("")), (v[2], v[3]));
            }
        }
        (Mat::ID, (w, h))
    }

    fn layer(&self, n: usize, m: &Mat, st: &Style, items: Vec<Item>, out: &mut Vec<Item>) {
        if items.is_empty() && st.get("filter") == "none" { return; }
        let op = parse_op(st.get("opacity"));
        let bb = || local_bbox(&items, m);
        let mut clip = None;
        let mut mask = None;
        let mut filter = None;
        let cp = st.get("clip-path");
        if cp != "none" {
            match url_ref(cp).and_then(|i| self.ids.get(i).cloned()) {
                Some(c) if self.d.svg(c) == "clipPath" => clip = Some(self.clip(c, m, bb())),
                _ => self.uns("broken clip-path"),
            }
        }
        let mk = st.get("mask");
        if mk != "none" {
            match url_ref(mk).and_then(|i| self.ids.get(i).cloned()) {
                Some(c) if self.d.svg(c) == "mask" => mask = Some(self.mask(c, m, bb())),
                _ => self.uns("broken mask"),
            }
        }
        let fl = st.get("filter");
        if fl != "none" {
            match url_ref(fl).and_then(|i| self.ids.get(i).cloned()) {
                Some(c) if self.d.svg(c) == "filter" => {
                    match self.filter(c, m) {
                        Some(f) => filter = Some(f),
                        None => return, // no primitives: element is not rendered
                    }
                }
                _ => self.uns("broken filter"),
            }
        }
        let trivial = op >= 1.0 && clip.is_none() && mask.is_none() && filter.is_none();
        if trivial { out.extend(items); }
        else { 
            let bare = self.d.svg(n) == "g" && !self.d.children(n).iter().any(|&c| self.d.is_elem(c));
            out.push(Item::G(Box::new(Group { opacity: op, clip, mask, filter, items, vis_aabb: None, bare })));
        }
    }

    // ---------------------------------------------------------------- shapes
    pub fn shape_segs(&self, n: usize, tag: &str, st: &Style) -> Vec<Seg> {
        let l = |a: &str, ax: u8| self.alen(n, a, ax, st, 0.0);
        match tag {
            "path" => {
                let mut v = match parse_path(self.d.attr(n, "d").unwrap_or("")) { Ok(v) => v, Err(v) => { self.uns("bad path data"); v } };
                // an arc back to (almost) its own start is ill-conditioned: nothing, or a whole ellipse
                let mut cur = (0.0, 0.0);
                let mut start = cur;
                for (qi, q) in v.iter().enumerate() {
                    match *q {
                        Seg::M(p) => { cur = p; start = p; }
                        Seg::L(p) => {
                            // closes a subpath or not, depending on a rounding error
                            let l = dist(cur, p);
                            if l > 0.0 && l < 1e-7 && dist(p, start) < 1e-6 && !matches!(v.get(qi + 1), Some(Seg::Z)) { self.uns("ambiguous: line shorter than rounding errors"); }
                            cur = p;
                        }
                        Seg::C(_, _, p) | Seg::Q(_, p) => cur = p,
                        Seg::A { to, .. } => { if dist(cur, to) < 1e-3 { self.uns("ambiguous: degenerate arc"); } cur = to; }
                        Seg::Z => cur = start,
                    }
                }
                // a curve that has no extent except rounding errors has no extent
                let mut cur = (0.0, 0.0);
                let mut start = cur;
                for q in v.iter_mut() {
                    let tiny = |c: Pt, p: Pt| dist(c, p) < 1e-9 * (1.0 + p.0.abs() + p.1.abs());
                    match *q {
                        Seg::M(p) => { cur = p; start = p; }
                        Seg::L(p) => cur = p,
                        Seg::C(a, b, p) => { if tiny(cur, a) && tiny(cur, b) && tiny(cur, p) { *q = Seg::C(cur, cur, cur); } else { cur = p; } }
                        Seg::Q(a, p) => { if tiny(cur, a) && tiny(cur, p) { *q = Seg::Q(cur, cur); } else { cur = p; } }
                        Seg::A { to, .. } => cur = to,
                        Seg::Z => cur = start,
                    }
                }
                v
            }
            "rect" => {
                let (x, y, w, h) = (l("x", 0), l("y", 1), l("width", 0), l("height", 1));
                if w <= 0.0 || h <= 0.0 { return vec![]; }
                let neg = |s: Option<&str>| s.map_or(false, |v| num(v).map_or(true, |x| x < 0.0));
                let arx = self.d.attr(n, "rx").filter(|s| !neg(Some(s)));
                let ary = self.d.attr(n, "ry").filter(|s| !neg(Some(s)));
                let rx0 = arx.map(|s| self.len(s, 0, st.font_px));
                let ry0 = ary.map(|s| self.len(s, 1, st.font_px));
                let mut rx = rx0.or(ry0).unwrap_or(0.0);
                let mut ry = ry0.or(rx0).unwrap_or(0.0);
                rx = rx.min(w / 2.0); ry = ry.min(h / 2.0);
                if rx > 0.0 && ry > 0.0 {
                    let a = |to: Pt| Seg::A { r: (rx, ry), rot: 0.0, large: false, sweep: true, to };
                    vec![Seg::M((x + rx, y)), Seg::L((x + w - rx, y)), a((x + w, y + ry)), Seg::L((x + w, y + h - ry)), a((x + w - rx, y + h)),
                         Seg::L((x + rx, y + h)), a((x, y + h - ry)), Seg::L((x, y + ry)), a((x + rx, y)), Seg::Z]
                } else {
                    vec![Seg::M((x, y)), Seg::L((x + w, y)), Seg::L((x + w, y + h)), Seg::L((x, y + h)), Seg::Z]
                }
            }
            "circle" | "ellipse" => {
                let (cx, cy) = (l("cx", 0), l("cy", 1));
                let (rx, ry) = if tag == "circle" { let r = l("r", 2); (r, r) } else { (l("rx", 0), l("ry", 1)) };
                if rx <= 0.0 || ry <= 0.0 { return vec![]; }
                let a = |to: Pt| Seg::A { r: (rx, ry), rot: 0.0, large: false, sweep: true, to };
                vec![Seg::M((cx + rx, cy)), a((cx, cy + ry)), a((cx - rx, cy)), a((cx, cy - ry)), a((cx + rx, cy)), Seg::Z]
            }
            "line" => vec![Seg::M((l("x1", 0), l("y1", 1))), Seg::L((l("x2", 0), l("y2", 1)))],
            "polyline" | "polygon" => {
                let mut v = numlist(self.d.attr(n, "points").unwrap_or(""));
                if v.len() % 2 == 1 { v.pop(); }
                let mut o = vec![];
                for (i, c) in v.chunks(2).enumerate() { o.push(if i == 0 { Seg::M((c[0], c[1])) } else { Seg::L((c[0], c[1])) }); }
                if tag == "polygon" && !o.is_empty() { o.push(Seg::Z); }
                o
            }
            _ => vec![],
        }
    }

    fn stroke_geom(&self, st: &Style) -> StrokeGeom {
        let fs = st.font_px;
        let da = st.get("stroke-dasharray");
        let mut dash: Vec<f64> = vec![];
        if da != "none" {
            for p in da.split(|c: char| c == ',' || c.is_whitespace()).filter(|s| !s.is_empty()) { dash.push(self.len(p, 2, fs)); }
            if dash.iter().any(|v| *v < 0.0) || dash.iter().sum::<f64>() <= 0.0 { dash.clear(); }
        }
        StrokeGeom {
            width: self.len(st.get("stroke-width"), 2, fs),
            cap: match st.get("stroke-linecap") { "round" => 1, "square" => 2, _ => 0 },
            join: match st.get("stroke-linejoin") { "round" => 1, "bevel" => 2, _ => 0 },
            miter: num(st.get("stroke-miterlimit")).unwrap_or(4.0),
            dash,
            dashoff: self.len(st.get("stroke-dashoffset"), 2, fs),
        }
    }

    fn shape(&self, n: usize, tag: &str, m: &Mat, st: &Style, out: &mut Vec<Item>) {
        let segs = self.shape_segs(n, tag, st);
        if segs.is_empty() { return; }
        let flat = Rc::new(flatten(&segs));
        if flat.bbox.is_none() && flat.verts.is_empty() { return; }
        let vis = st.get("visibility") == "visible";
        let mut dr = Draw {
            ctm: *m, inv: m.inv(), flat: flat.clone(), fill: Paint::None, evenodd: st.get("fill-rule") == "evenodd",
            fill_op: parse_op(st.get("fill-opacity")), stroke: Paint::None, stroke_op: parse_op(st.get("stroke-opacity")),
            sg: self.stroke_geom(st), runs: Rc::new(StrokeRuns::default()), aabb: None,
            hints: String::new(), link: self.curlink(), painted: false, src: n,
        };
        let bb = flat.bbox;
        if vis {
            if tag != "line" && !collinear(&flat) { dr.fill = self.paint(st.get("fill"), m, bb, st); }
            if dr.sg.width > 0.0 { dr.stroke = self.paint(st.get("stroke"), m, bb, st); }
        }
        let hf = !matches!(dr.fill, Paint::None) && dr.fill_op > 0.0;
        let hs = !matches!(dr.stroke, Paint::None) && dr.stroke_op > 0.0;
        dr.painted = (hf || hs) && bb.is_some();
        if hs {
            dr.runs = Rc::new(stroke_runs(&flat, &dr.sg));
            if dr.runs.amb { self.uns("ambiguous: dash ends at a vertex"); }
        }
        if dr.painted {
            dr.hints = hints(st, &["shape-rendering", "pointer-events", "cursor"]);
            let b = bb.unwrap();
            let e = if hs { dr.sg.width / 2.0 * dr.sg.miter.max(1.5) } else { 0.0 };
            dr.aabb = Some(map_bbox([b[0] - e, b[1] - e, b[2] + e, b[3] + e], m));
        }
        let sw = dr.sg.width;
        out.push(Item::D(Box::new(dr)));
        // markers
        if vis && matches!(tag, "path" | "line" | "polyline" | "polygon") && !flat.verts.is_empty() {
            let nv = flat.verts.len();
            for (i, v) in flat.verts.iter().enumerate() {
                let mut kinds = vec![];
                if i == 0 { kinds.push("marker-start"); }
                if i > 0 && i + 1 < nv { kinds.push("marker-mid"); }
                if i + 1 == nv { kinds.push("marker-end"); }
                for k in kinds {
                    let r = st.get(k);
                    if r == "none" { continue; }
                    match url_ref(r).and_then(|i| self.ids.get(i).cloned()) {
                        Some(mk) if self.d.svg(mk) == "marker" => self.marker(mk, m, v, sw, out),
                        _ => self.uns("broken marker"),
                    }
                }
            }
        }
    }

    fn marker(&self, mk: usize, m: &Mat, v: &Vertex, sw: f64, out: &mut Vec<Item>) {
        // a marker is not rendered inside itself
        if self.mk.borrow().contains(&mk) { return; }
        if self.mk.borrow().len() > 3 { self.uns("depth of markers"); return; }
        self.mk.borrow_mut().push(mk);
        *self.depth.borrow_mut() += 5;
        let st = self.doc_style(mk);
        let ang = match self.d.attr(mk, "orient").unwrap_or("0") {
            "auto" => {
                match (v.ang_in, v.ang_out) {
                    (Some(a), Some(b)) => {
                        // keep the bisector of a cusp independent of rounding: -pi and pi are the same direction
                        let nrm = |v: f64| if v <= -std::f64::consts::PI + 1e-4 { v + 2.0 * std::f64::consts::PI } else { v };
                        let (a, b) = (nrm(a), nrm(b));
                        let (x, y) = (a.cos() + b.cos(), a.sin() + b.sin());
                        if x.hypot(y) < 2e-2 { self.uns("ambiguous: cusp marker"); a + std::f64::consts::FRAC_PI_2 } else { y.atan2(x) }
                    }
                    (Some(a), None) | (None, Some(a)) => a,
                    _ => 0.0,
                }
                .to_degrees()
            }
            s => num(s).unwrap_or(0.0),
        };
        let mw = self.alen(mk, "markerWidth", 0, &st, 3.0);
        let mh = self.alen(mk, "markerHeight", 1, &st, 3.0);
        if mw <= 0.0 || mh <= 0.0 { *self.depth.borrow_mut() -= 5; self.mk.borrow_mut().pop(); return; }
        let sc = if self.d.attr(mk, "markerUnits").unwrap_or("strokeWidth") == "userSpaceOnUse" { 1.0 } else { sw };
        let (vm, nvp) = self.viewbox_map(mk, mw, mh);
        let rx = self.alen(mk, "refX", 0, &st, 0.0);
        let ry = self.alen(mk, "refY", 1, &st, 0.0);
        let base = m.mul(&Mat::tr(v.p.0, v.p.1)).mul(&Mat::rot(ang)).mul(&Mat::scale(sc, sc));
        let rp = vm.ap((rx, ry));
        let base = base.mul(&Mat::tr(-rp.0, -rp.1));
        let m2 = base.mul(&vm);
        let mut inner = vec![];
        self.with_vp(nvp, |b| b.children(mk, &m2, &st, &mut inner));
        let ov = st.get("overflow");
        if ov == "visible" || ov == "auto" { out.extend(inner); }
        else {
            let clip = Clip { own: None, shapes: vec![], rect: Some((base.inv(), [0.0, 0.0, mw, mh])) };
            out.push(Item::G(Box::new(Group { opacity: 1.0, clip: Some(Rc::new(clip)), items: inner, ..Default::default() })));
        }
        self.mk.borrow_mut().pop();
        *self.depth.borrow_mut() -= 5;
    }

    // ---------------------------------------------------------------- paint servers
    fn paint(&self, v: &str, m: &Mat, bb: Option<[f64; 4]>, st: &Style) -> Paint {
        let v = v.trim();
        if v == "none" || v == "transparent" { return Paint::None; }
        if v.starts_with("url(") {
            let id = url_ref(v);
            let t = id.and_then(|i| self.ids.get(i).cloned());
            let fb = v[v.find(')').map(|i| i + 1).unwrap_or(v.len())..].trim();
            let t = match t {
                Some(t) => t,
                None => return if fb.is_empty() { self.uns("broken paint"); Paint::None } else { self.paint(fb, m, bb, st) },
            };
            return match self.d.svg(t) {
                "linearGradient" | "radialGradient" => self.gradient(t, m, bb),
                "pattern" => self.pattern(t, m, bb),
                _ => { self.uns("paint ref to non-server"); Paint::None }
            };
        }
        if v.eq_ignore_ascii_case("currentColor") { return self.paint(&st.get("color").to_string(), m, bb, st); }
        match parse_color(v) {
            Some(c) => Paint::Color(c),
            None => { self.uns("bad color"); Paint::None }
        }
    }

    fn chain(&self, n: usize) -> Vec<usize> {
        let mut c = vec![n];
        let mut k = n;
        while let Some(t) = self.href_local(k) {
            if c.contains(&t) || c.len() > 50 { self.uns("href cycle"); break; }
            c.push(t);
            k = t;
        }
        c
    }

    fn gradient(&self, n: usize, m: &Mat, bb: Option<[f64; 4]>) -> Paint {
        let mut ch = self.chain(n);
        if let Some(i) = ch.iter().position(|&e| !matches!(self.d.svg(e), "linearGradient" | "radialGradient")) { ch.truncate(i); }
        let kind = self.d.svg(n);
        let get = |a: &str| -> Option<&'a str> {
            for &e in &ch {
                let t = self.d.svg(e);
                let geom = matches!(a, "x1" | "y1" | "x2" | "y2" | "cx" | "cy" | "r" | "fx" | "fy");
                if geom && t != kind { continue; }
                if let Some(v) = self.d.attr(e, a) { return Some(v); }
            }
            None
        };
        let stops = {
            let mut s = vec![];
            for &e in &ch {
                if !matches!(self.d.svg(e), "linearGradient" | "radialGradient") { break; }
                let has = self.d.children(e).iter().any(|&c| self.d.svg(c) == "stop");
                if has { s = self.stops(e); break; }
            }
            s
        };
        if stops.is_empty() { return Paint::None; }
        if stops.len() == 1 { return flat_paint(&stops[0]); }
        let obb = get("gradientUnits").unwrap_or("objectBoundingBox") != "userSpaceOnUse";
        let gt = match get("gradientTransform") { Some(s) => parse_transform(s).unwrap_or(Mat::ID), None => Mat::ID };
        let base = if obb {
            let b = match bb { Some(b) => b, None => return Paint::None };
            if b[2] - b[0] <= 1e-7 || b[3] - b[1] <= 1e-7 { return Paint::None; }
            Mat::new(b[2] - b[0], 0.0, 0.0, b[3] - b[1], b[0], b[1])
        } else { Mat::ID };
        let st = self.doc_style(n);
        let gv = |a: &str, def: &str, ax: u8| -> f64 {
            let s = get(a).unwrap_or(def);
            if obb { self.unitval(s, &st) } else { self.len(s, ax, st.font_px) }
        };
        let spread = match get("spreadMethod").unwrap_or("pad") { "reflect" => 1, "repeat" => 2, _ => 0 } + if st.get("color-interpolation") == "linearRGB" { 4 } else { 0 };
        let last = stops.last().unwrap().clone();
        let inv = match m.mul(&base).mul(&gt).inv() { Some(i) => i, None => return Paint::None };
        if kind == "linearGradient" {
            let p1 = (gv("x1", "0%", 0), gv("y1", "0%", 1));
            let p2 = (gv("x2", "100%", 0), gv("y2", "0%", 1));
            if p1 == p2 { return flat_paint(&last); }
            Paint::Lin { inv, p1, p2, spread, stops: Rc::new(stops) }
        } else {
            let c = (gv("cx", "50%", 0), gv("cy", "50%", 1));
            let r = gv("r", "50%", 2);
            let f = (if get("fx").is_some() { gv("fx", "", 0) } else { c.0 }, if get("fy").is_some() { gv("fy", "", 1) } else { c.1 });
            if r <= 0.0 { return flat_paint(&last); }
            Paint::Rad { inv, c, r, f, spread, stops: Rc::new(stops) }
        }
    }

    fn stops(&self, g: usize) -> Vec<Stop> {
        let gs = self.doc_style(g);
        let mut out: Vec<Stop> = vec![];
        for &c in self.d.children(g) {
            if self.d.svg(c) != "stop" { continue; }
            let s = compute(self.d, &self.css, c, &gs);
            let o = self.d.attr(c, "offset").unwrap_or("0");
            let mut off = self.unitval(o, &s).max(0.0).min(1.0);
            if let Some(l) = out.last() { off = off.max(l.off); }
            let cs = s.get("stop-color");
            let cs = if cs.eq_ignore_ascii_case("currentColor") { s.get("color") } else { cs };
            let col = match parse_color(cs) { Some(c) => c, None => { self.uns("bad stop-color"); [0.0; 3] } };
            out.push(Stop { off, c: col, a: parse_op(s.get("stop-opacity")) });
        }
        out
    }

    fn pattern(&self, n: usize, m: &Mat, bb: Option<[f64; 4]>) -> Paint {
        if *self.depth.borrow() > 100 { self.uns("depth"); return Paint::None; }
        let mut ch = self.chain(n);
        if let Some(i) = ch.iter().position(|&e| self.d.svg(e) != "pattern") { ch.truncate(i); }
        let get = |a: &str| -> Option<(&'a str, usize)> {
            for &e in &ch { if let Some(v) = self.d.attr(e, a) { return Some((v, e)); } }
            None
        };
        let obb = get("patternUnits").map_or("objectBoundingBox", |x| x.0) != "userSpaceOnUse";
        let cobb = get("patternContentUnits").map_or("userSpaceOnUse", |x| x.0) == "objectBoundingBox";
        let b = match bb { Some(b) => b, None => return Paint::None };
        let (bw, bh) = (b[2] - b[0], b[3] - b[1]);
        if (obb || cobb) && (bw <= 1e-7 || bh <= 1e-7) { return Paint::None; }
        let st = self.doc_style(n);
        let gv = |a: &str, ax: u8| -> f64 {
            let s = get(a).map_or("0", |x| x.0);
            if obb { self.unitval(s, &st) } else { self.len(s, ax, st.font_px) }
        };
        let (mut x, mut y, mut w, mut h) = (gv("x", 0), gv("y", 1), gv("width", 0), gv("height", 1));
        if obb { x = b[0] + x * bw; y = b[1] + y * bh; w *= bw; h *= bh; }
        if w <= 0.0 || h <= 0.0 { return Paint::None; }
        let pt = match get("patternTransform") { Some(s) => parse_transform(s.0).unwrap_or(Mat::ID), None => Mat::ID };
        let src = ch.iter().cloned().find(|&e| self.d.children(e).iter().any(|&c| !matches!(self.d.svg(c), "" | "title" | "desc" | "metadata")));
        let src = match src { Some(s) => s, None => return Paint::None };
        let cm = if let Some((vb, e)) = get("viewBox") {
            let v = numlist(vb);
            if v.len() == 4 && v[2] > 0.0 && v[3] > 0.0 {
                let _ = e;
                Mat::tr(x, y).mul(&par_map(&v, w, h, get("preserveAspectRatio").map_or("", |p| p.0)))
            } else { Mat::tr(x, y) }
        } else if cobb { Mat::tr(x, y).mul(&Mat::scale(bw, bh)) } else { Mat::tr(x, y) };
        let inv = match m.mul(&pt).inv() { Some(i) => i, None => return Paint::None };
        let sst = self.doc_style(src);
        let mut items = vec![];
        *self.depth.borrow_mut() += 15;
        self.children(src, &cm, &sst, &mut items);
        *self.depth.borrow_mut() -= 15;
        if !crate::compare::content(&items) { return Paint::None; }
        Paint::Pat { inv, rect: [x, y, w, h], items: Rc::new(items) }
    }

    fn clip(&self, c: usize, m: &Mat, bb: Option<[f64; 4]>) -> Rc<Clip> {
        *self.depth.borrow_mut() += 10;
        let st = self.doc_style(c);
        let mut mm = m.mul(&self.transform_attr(c, "transform"));
        let mut empty = false;
        if self.d.attr(c, "clipPathUnits") == Some("objectBoundingBox") {
            match bb {
                Some(b) => mm = mm.mul(&Mat::new(b[2] - b[0], 0.0, 0.0, b[3] - b[1], b[0], b[1])),
                None => empty = true,
            }
        }
        let mut shapes = vec![];
        if !empty && *self.depth.borrow() < 150 {
            for &k in self.d.children(c) {
                if !self.d.is_elem(k) { continue; }
                match self.d.svg(k) {
                    "path" | "rect" | "circle" | "ellipse" | "line" | "polyline" | "polygon" | "text" | "use" => self.clip_child(k, &mm, &st, &mut shapes),
                    _ => {}
                }
            }
        }
        let own = match st.get("clip-path") {
            "none" => None,
            s => match url_ref(s).and_then(|i| self.ids.get(i).cloned()) {
                Some(k) if self.d.svg(k) == "clipPath" && *self.depth.borrow() < 150 => Some(self.clip(k, m, bb)),
                _ => { self.uns("broken clip-path"); None }
            },
        };
        *self.depth.borrow_mut() -= 10;
        Rc::new(Clip { own, shapes, rect: None })
    }

    /// Clip children contribute raw geometry only: fill/stroke/opacity/mask/filter are ignored.
    fn clip_child(&self, k: usize, mm: &Mat, pst: &Style, out: &mut Vec<Item>) {
        let st = compute(self.d, &self.css, k, pst);
        if st.get("display") == "none" { return; }
        let m = mm.mul(&self.transform_attr(k, "transform"));
        let tag = self.d.svg(k);
        let mut items = vec![];
        match tag {
            "use" => {
                if let Some(t) = self.href_local(k) {
                    let mu = m.mul(&Mat::tr(self.alen(k, "x", 0, &st, 0.0), self.alen(k, "y", 1, &st, 0.0)));
                    match self.d.svg(t) {
                        "path" | "rect" | "circle" | "ellipse" | "line" | "polyline" | "polygon" | "text" => self.clip_child(t, &mu, &st, &mut items),
                        _ => {}
                    }
                }
            }
            "text" => {
                let mut s2 = st.clone();
                for (p, v) in [("fill", "#000000"), ("fill-opacity", "1"), ("stroke", "none")] { s2.v[pid(p).unwrap()] = Some(v.into()); }
                self.text(k, &m, &s2, &mut items);
            }
            _ => {
                if st.get("visibility") == "visible" {
                    let segs = self.shape_segs(k, tag, &st);
                    if !segs.is_empty() {
                        let flat = Rc::new(flatten(&segs));
                        if let Some(b) = flat.bbox {
                            items.push(Item::D(Box::new(Draw {
                                ctm: m, inv: m.inv(), aabb: Some(map_bbox(b, &m)), flat, fill: Paint::Color([0.0; 3]),
                                evenodd: st.get("clip-rule") == "evenodd", fill_op: 1.0, stroke: Paint::None, stroke_op: 1.0,
                                sg: StrokeGeom { width: 0.0, cap: 0, join: 0, miter: 4.0, dash: vec![], dashoff: 0.0 },
                                runs: Rc::new(StrokeRuns::default()), hints: String::new(), link: String::new(), painted: true, src: k,
                            })));
                        }
                    }
                }
            }
        }
        let cp = st.get("clip-path");
        if cp != "none" {
            match url_ref(cp).and_then(|i| self.ids.get(i).cloned()) {
                Some(c) if self.d.svg(c) == "clipPath" && *self.depth.borrow() < 150 => {
                    let bb = local_bbox(&items, &m);
                    let clip = self.clip(c, &m, bb);
                    out.push(Item::G(Box::new(Group { opacity: 1.0, clip: Some(clip), items, ..Default::default() })));
                    return;
                }
                _ => self.uns("broken clip-path"),
            }
        }
        out.extend(items);
    }

    fn mask(&self, k: usize, m: &Mat, bb: Option<[f64; 4]>) -> Rc<MaskR> {
        *self.depth.borrow_mut() += 10;
        let st = self.doc_style(k);
        let b = bb.unwrap_or([0.0; 4]);
        let (bw, bh) = (b[2] - b[0], b[3] - b[1]);
        let obb = self.d.attr(k, "maskUnits").unwrap_or("objectBoundingBox") != "userSpaceOnUse";
        let gv = |a: &str, def: &str, ax: u8| -> f64 {
            let s = self.d.attr(k, a).unwrap_or(def);
            if obb { self.unitval(s, &st) } else { self.len(s, ax, st.font_px) }
        };
        let (mut x, mut y, mut w, mut h) = (gv("x", "-10%", 0), gv("y", "-10%", 1), gv("width", "120%", 0), gv("height", "120%", 1));
        if obb { x = b[0] + x * bw; y = b[1] + y * bh; w *= bw; h *= bh; }
        let mm = if self.d.attr(k, "maskContentUnits") == Some("objectBoundingBox") {
            m.mul(&Mat::new(bw, 0.0, 0.0, bh, b[0], b[1]))
        } else { *m };
        let mut items = vec![];
        if *self.depth.borrow() < 150 { self.children(k, &mm, &st, &mut items); }
        // opacity/mask/clip on the mask element itself
        let mut g = Group { opacity: parse_op(st.get("opacity")), items, ..Default::default() };
        // opacity does not apply to mask elements
        g.opacity = 1.0;
        match st.get("mask") {
            "none" => {}
            s => match url_ref(s).and_then(|i| self.ids.get(i).cloned()) {
                Some(c) if self.d.svg(c) == "mask" && *self.depth.borrow() < 150 => g.mask = Some(self.mask(c, m, bb)),
                _ => self.uns("broken mask"),
            },
        }
        match st.get("clip-path") {
            "none" => {}
            s => match url_ref(s).and_then(|i| self.ids.get(i).cloned()) {
                Some(c) if self.d.svg(c) == "clipPath" && *self.depth.borrow() < 150 => g.clip = Some(self.clip(c, m, bb)),
                _ => self.uns("broken clip-path"),
            },
        }
        *self.depth.borrow_mut() -= 10;
        Rc::new(MaskR { inv: m.inv(), rect: [x, y, w, h], group: g, linear: st.get("color-interpolation") == "linearRGB" })
    }

    /// Canonical token form of a filter; None if it has no primitives.
    fn filter(&self, f: usize, m: &Mat) -> Option<Rc<Vec<Tok>>> {
        let ch = self.chain(f);
        let get = |a: &str| ch.iter().find_map(|&e| self.d.attr(e, a));
        let src = ch.iter().cloned().find(|&e| self.d.children(e).iter().any(|&c| is_fe(self.d.svg(c), "filter")))?;
        let mut t = vec![];
        let fu = get("filterUnits").unwrap_or("objectBoundingBox");
        let obb = fu != "userSpaceOnUse";
        t.push(Tok::S(fu.into()));
        t.push(Tok::S(get("primitiveUnits").unwrap_or("userSpaceOnUse").into()));
        let st = self.doc_style(f);
        for (a, d, ax) in [("x", "-10%", 0u8), ("y", "-10%", 1), ("width", "120%", 0), ("height", "120%", 1)] {
            let s = get(a).unwrap_or(d);
            t.push(Tok::N(if obb { self.unitval(s, &st) } else { self.len(s, ax, st.font_px) }));
        }
        if let Some(r) = get("filterRes") { toks(r, &mut t); }
        for v in [m.a, m.b, m.c, m.d] { t.push(Tok::N(v)); }
        if !obb { t.push(Tok::N(m.e)); t.push(Tok::N(m.f)); }
        let sst = self.doc_style(src);
        for &c in self.d.children(src) { if is_fe(self.d.svg(c), "filter") { self.fe(c, &sst, &mut t); } }
        Some(Rc::new(t))
    }

    fn fe(&self, n: usize, pst: &Style, t: &mut Vec<Tok>) {
        let tag = self.d.svg(n);
        if matches!(tag, "title" | "desc" | "metadata") { return; }
        let st = compute(self.d, &self.css, n, pst);
        t.push(Tok::S(format!("<{}", tag)));
        let mut at: Vec<(&str, &str)> = self.d.attrs(n).iter()
            .filter(|a| FE_ATTRS.contains(&a.name.as_str()))
            .map(|a| (a.name.as_str(), a.value.as_str())).collect();
        for (name, def) in fe_defaults(tag) { if !at.iter().any(|a| a.0 == *name) { at.push((name, def)); } }
        if tag == "feGaussianBlur" || tag == "feMorphology" || tag == "feTurbulence" || tag == "feConvolveMatrix" || tag == "feDiffuseLighting" {
            // "n" == "n n" for number-optional-number
            for a in ["stdDeviation", "radius", "baseFrequency"] {
                if let Some(p) = at.iter().position(|x| x.0 == a) {
                    let v = numlist(at[p].1);
                    t.push(Tok::S(a.into()));
                    match v.len() { 1 => { t.push(Tok::N(v[0])); t.push(Tok::N(v[0])) } _ => for x in v { t.push(Tok::N(x)) } }
                    at.remove(p);
                }
            }
        }
        at.sort();
        for (k, v) in at {
            if k == "xlink:href" {
                match self.href_local(n) {
                    Some(x) => {
                        // what the element shows, seen at some points
                        if *self.depth.borrow() > 100 { self.uns("depth"); continue; }
                        let mut items = vec![];
                        *self.depth.borrow_mut() += 20;
                        self.node(x, &Mat::ID, &Style::root(), &mut items, None); // as 'use' does
                        let mut there = vec![];
                        self.node(x, &Mat::ID, &self.parent_style(x), &mut there, None);
                        *self.depth.borrow_mut() -= 20;
                        let see = |items: &Vec<Item>| {
                            let mut cols = vec![];
                            for i in 0..9 { for j in 0..9 { let mut c = [0.0; 4]; eval_items(items, (i as f64 * 12.71828 - 7.3141, j as f64 * 12.61803 - 6.4142), &mut c); cols.push(c); } }
                            cols
                        };
                        let cols = see(&items);
                        // viewers do not agree on what such an element inherits
                        if see(&there).iter().zip(&cols).any(|(p, q)| (0..4).any(|k| (p[k] - q[k]).abs() > 1e-3)) { self.uns("ambiguous: style of a feImage target"); }
                        if cols.iter().any(|c| c[3] > 0.0) { for c in cols { for v in c { t.push(Tok::N(v)); } } }
                    }
                    None if v.trim().starts_with('#') => {} // nothing is shown
                    None => t.push(Tok::S(format!("href={}", v.chars().filter(|c| !c.is_whitespace()).collect::<String>()))),
                }
                continue;
            }
            t.push(Tok::S(k.into()));
            if matches!(k, "in" | "in2" | "result") { t.push(Tok::S(v.trim().into())) } else if matches!(k, "x" | "y" | "width" | "height") { toks(v.trim().trim_end_matches("px"), t); } else { toks(v, t); }
        }
        for p in ["color-interpolation-filters"] { t.push(Tok::S(st.get(p).into())); }
        match tag {
            "feFlood" => { self.coltok(st.get("flood-color"), &st, t); t.push(Tok::N(parse_op(st.get("flood-opacity")))); }
            "feDiffuseLighting" | "feSpecularLighting" => self.coltok(st.get("lighting-color"), &st, t),
            _ => {}
        }
        for &c in self.d.children(n) { if is_fe(self.d.svg(c), tag) { self.fe(c, &st, t); } }
        t.push(Tok::S(">".into()));
    }
    fn coltok(&self, s: &str, st: &Style, t: &mut Vec<Tok>) {
        let s = if s.eq_ignore_ascii_case("currentColor") { st.get("color") } else { s };
        match parse_color(s) { Some(c) => for v in c { t.push(Tok::N(v)) }, None => t.push(Tok::S(s.into())) }
    }

    // ---------------------------------------------------------------- text
    fn text(&self, n: usize, m: &Mat, st: &Style, out: &mut Vec<Item>) {
        struct Ch { c: char, preserve: bool, path: Rc<Vec<(usize, Rc<Style>)>> }
        let mut chars: Vec<Ch> = vec![];
        // collect
        fn collect(b: &B, n: usize, path: Rc<Vec<(usize, Rc<Style>)>>, pres: bool, chars: &mut Vec<(char, bool, Rc<Vec<(usize, Rc<Style>)>>)>, depth: usize) {
            if depth > 60 { return; }
            for &c in b.d.children(n) {
                if let Some(t) = b.d.text(c) {
                    for ch in t.chars() { chars.push((ch, pres, path.clone())); }
                    continue;
                }
                match b.d.svg(c) {
                    "tspan" | "a" | "textPath" | "tref" | "altGlyph" => {
                        let st = compute(b.d, &b.css, c, &path.last().unwrap().1);
                        if st.get("display") == "none" { continue; }
                        let mut p = (*path).clone();
                        p.push((c, Rc::new(st)));
                        let pr = match b.d.attr(c, "xml:space") { Some("preserve") => true, Some(_) => false, None => pres };
                        if b.d.svg(c) == "tref" {
                            if let Some(t) = b.href_local(c) {
                                let mut s = String::new();
                                fn txt(b: &B, n: usize, s: &mut String, d: usize) {
                                    if d > 40 { return; }
                                    for &k in b.d.children(n) { match b.d.text(k) { Some(t) => s.push_str(t), None => txt(b, k, s, d + 1) } }
                                }
                                txt(b, t, &mut s, 0);
                                let p = Rc::new(p);
                                for ch in s.chars() { chars.push((ch, pr, p.clone())); }
                            }
                            continue;
                        }
                        collect(b, c, Rc::new(p), pr, chars, depth + 1);
                    }
                    _ => {}
                }
            }
        }
        let mut pres = false;
        {
            let mut k = Some(n);
            while let Some(e) = k {
                if let Some(v) = self.d.attr(e, "xml:space") { pres = v == "preserve"; break; }
                k = self.d.parent(e);
            }
        }
        let mut raw = vec![];
        collect(self, n, Rc::new(vec![(n, Rc::new(st.clone()))]), pres, &mut raw, 0);
        for (c, p, path) in raw {
            let c = if p { match c { '\n' | '\t' | '\r' => ' ', c => c } } else {
                match c { '\n' | '\r' => continue, '\t' => ' ', c => c }
            };
            if c == ' ' && !p {
                match chars.last() {
                    None => continue,
                    Some(l) if l.c == ' ' => continue,
                    _ => {}
                }
            }
            chars.push(Ch { c, preserve: p, path });
        }
        while let Some(l) = chars.last() { if l.c == ' ' && !l.preserve { chars.pop(); } else { break; } }
        if chars.is_empty() { return; }
        // positions: nearest ancestor that supplies a value for this char index
        let mut start: HashMap<usize, usize> = HashMap::new();
        for (i, c) in chars.iter().enumerate() { for p in c.path.iter() { start.entry(p.0).or_insert(i); } }
        let nm = ["x", "y", "dx", "dy", "rotate"];
        let mut lists: HashMap<(usize, usize), Vec<f64>> = HashMap::new();
        for c in &chars {
            for (e, s) in c.path.iter() {
                for (k, a) in nm.iter().enumerate() {
                    if lists.contains_key(&(*e, k)) { continue; }
                    let v = match self.d.attr(*e, a) {
                        Some(_) if matches!(self.d.svg(*e), "a" | "textPath") => vec![], // not theirs
                        Some(v) => v.split(|c: char| c == ',' || c.is_whitespace()).filter(|s| !s.is_empty())
                            .map(|p| self.len(p, if k % 2 == 0 { 0 } else { 1 }, s.font_px)).collect(),
                        None => vec![],
                    };
                    lists.insert((*e, k), v);
                }
            }
        }
        let val = |i: usize, k: usize| -> Option<f64> {
            for (e, _) in chars[i].path.iter().rev() {
                let l = &lists[&(*e, k)];
                if l.is_empty() { continue; }
                let j = i - start[e];
                if k == 4 { return Some(*l.get(j).unwrap_or(l.last().unwrap())); }
                if let Some(v) = l.get(j) { return Some(*v); }
            }
            None
        };
        let mut glyphs: Vec<Glyph> = vec![];
        let (mut x, mut y) = (0.0, 0.0);
        let mut chunk_start = 0;
        let mut pos: Vec<(f64, f64, f64)> = vec![];
        let n_ch = chars.len();
        let mut adv_total = 0.0;
        let flush = |pos: &mut Vec<(f64, f64, f64)>, from: usize, adv: f64, anchor: &str| {
            let sh = match anchor { "middle" => -adv / 2.0, "end" => -adv, _ => 0.0 };
            for p in pos[from..].iter_mut() { p.0 += sh; }
        };
        let mut anchor = String::from("start");
        for i in 0..n_ch {
            let s = chars[i].path.last().unwrap().1.clone();
            let (vx, vy) = (val(i, 0), val(i, 1));
            if vx.is_some() || vy.is_some() || i == 0 {
                if i > 0 { flush(&mut pos, chunk_start, adv_total, &anchor); }
                chunk_start = i;
                adv_total = 0.0;
                anchor = s.get("text-anchor").to_string();
            }
            if let Some(v) = vx { x = v; } else if i == 0 { x = 0.0 }
            if let Some(v) = vy { y = v; } else if i == 0 { y = 0.0 }
            let (ddx, ddy) = (val(i, 2).unwrap_or(0.0), val(i, 3).unwrap_or(0.0));
            x += ddx; y += ddy;
            adv_total += ddx;
            pos.push((x, y, val(i, 4).unwrap_or(0.0)));
            let fs = s.font_px;
            let mut adv = 0.6 * fs;
            let sp = |v: &str| if v == "normal" { 0.0 } else { self.len(v, 0, fs) };
            adv += sp(s.get("letter-spacing"));
            if chars[i].c == ' ' { adv += sp(s.get("word-spacing")); }
            x += adv;
            adv_total += adv;
        }
        flush(&mut pos, chunk_start, adv_total, &anchor);
        // the real box of a text depends on fonts: any box that is the same before and after will do
        let tbox = pos.first().map(|p| [p.0 - 3.0, p.1 - 50.0, p.0 + 120.0, p.1 + 40.0]);
        let keyprops = ["font-family", "font-style", "font-variant", "font-weight", "font-stretch", "font-size-adjust", "kerning", "direction",
            "writing-mode", "glyph-orientation-horizontal", "glyph-orientation-vertical", "unicode-bidi", "text-rendering", "pointer-events", "cursor",
            "alignment-baseline", "letter-spacing", "word-spacing", "text-anchor", "font"];
        let mut keycache: HashMap<usize, (String, Paint, Paint, f64)> = HashMap::new();
        for i in 0..n_ch {
            let c = &chars[i];
            if c.c == ' ' && !c.preserve { continue; }
            let (e, s) = c.path.last().unwrap();
            let ent = keycache.entry(*e).or_insert_with(|| {
                let mut key = String::new();
                for p in keyprops.iter() { 
                    let v = s.get(p);
                    // does not apply to 'text'
                    if *e == n && *p == "alignment-baseline" { key.push('|'); continue; }
                    let v: String = if *p == "font-family" { v.replace('"', "'").replace(", ", ",") }
                        else if *p == "letter-spacing" || *p == "word-spacing" { if v == "normal" { "0.000".into() } else { format!("{:.3}", self.len(v, 0, s.font_px)) } }
                        else if *p == "font-weight" { match v { "normal" => "400".into(), "bold" => "700".into(), v => v.to_string() } }
                        else { v.to_string() };
                    key.push_str(&v); key.push('|');
                }
                key.push_str("td:"); key.push_str(&s.decor);
                for (pe, ps) in c.path.iter() {
                    if *pe != n {
                        let bs = ps.get("baseline-shift");
                        if bs != "baseline" { key.push_str("bs:"); key.push_str(bs); }
                        let o = parse_op(ps.get("opacity"));
                        if o < 1.0 { key.push_str(&format!("op:{:.3}", o)); }
                        match self.d.svg(*pe) {
                            "textPath" => {
                                key.push_str("textPath:");
                                key.push_str(self.d.attr(*pe, "method").unwrap_or("align"));
                                key.push_str(self.d.attr(*pe, "spacing").unwrap_or("exact"));
                                key.push_str(&format!("so{:.3}", self.alen(*pe, "startOffset", 0, ps, 0.0)));
                                let mut samples = vec![];
                                if let Some(t) = self.href_local(*pe) {
                                    let f = flatten(&self.shape_segs(t, self.d.svg(t), &self.doc_style(t)));
                                    samples = f.samples(9);
                                    let tm = self.transform_attr(t, "transform");
                                    for v in samples.iter_mut() { *v = tm.ap(*v); }
                                }
                                if samples.is_empty() { key.push_str("-nopath"); }
                                for q in samples { key.push_str(&format!(" {:.2},{:.2}", q.0 + 1e-4, q.1 + 1e-4)); }
                            }
                            "tref" => key.push_str("tref"),
                            "a" => { key.push_str("a:"); let l = self.link_target(*pe); if !l.starts_with('#') { key.push_str(&l); } }
                            _ => {}
                        }
                    }
                    for a in ["lengthAdjust", "textLength"] {
                        if let Some(v) = self.d.attr(*pe, a) { if !(a == "lengthAdjust" && v == "spacing") { key.push_str(a); key.push_str(&norm_num(v)); } }
                    }
                }
                (key, self.paint(s.get("fill"), m, tbox, s), self.paint(s.get("stroke"), m, tbox, s), self.len(s.get("stroke-width"), 2, s.font_px))
            });
            let fs = s.font_px;
            let gm = m.mul(&Mat::tr(pos[i].0, pos[i].1)).mul(&Mat::rot(pos[i].2)).mul(&Mat::scale(fs, fs));
            let mut key = ent.0.clone();
            let fill = ent.1.clone();
            let mut stroke = ent.2.clone();
            if ent.3 <= 0.0 { stroke = Paint::None; }
            if !matches!(stroke, Paint::None) {
                let sg = self.stroke_geom(s);
                key.push_str(&format!("{},{},{:.2},{:?},{:.3}", sg.cap, sg.join, sg.miter, sg.dash, sg.dashoff));
            }
            glyphs.push(Glyph {
                ch: c.c, m: gm, key, fill, fill_op: parse_op(s.get("fill-opacity")), stroke, stroke_op: parse_op(s.get("stroke-opacity")), sw: ent.3,
                evisible: s.get("visibility") == "visible" && fs > 0.0, link: self.curlink(),
            });
        }
        if !glyphs.is_empty() { out.push(Item::T(Rc::new(glyphs))); }
    }
}

fn fe_defaults(tag: &str) -> &'static [(&'static str, &'static str)] {
    match tag {
        "feGaussianBlur" => &[("stdDeviation", "0")],
        "feOffset" => &[("dx", "0"), ("dy", "0")],
        "feBlend" => &[("mode", "normal")],
        "feColorMatrix" => &[("type", "matrix")],
        "feComposite" => &[("operator", "over"), ("k1", "0"), ("k2", "0"), ("k3", "0"), ("k4", "0")],
        "feMorphology" => &[("operator", "erode"), ("radius", "0")],
        "feTurbulence" => &[("baseFrequency", "0"), ("numOctaves", "1"), ("seed", "0"), ("stitchTiles", "noStitch"), ("type", "turbulence")],
        "feDiffuseLighting" => &[("surfaceScale", "1"), ("diffuseConstant", "1")],
        "feSpecularLighting" => &[("surfaceScale", "1"), ("specularConstant", "1"), ("specularExponent", "1")],
        "feDistantLight" => &[("azimuth", "0"), ("elevation", "0")],
        "fePointLight" => &[("x", "0"), ("y", "0"), ("z", "0")],
        "feSpotLight" => &[("x", "0"), ("y", "0"), ("z", "0"), ("pointsAtX", "0"), ("pointsAtY", "0"), ("pointsAtZ", "0"), ("specularExponent", "1")],
        "feFuncR" | "feFuncG" | "feFuncB" | "feFuncA" => &[("slope", "1"), ("intercept", "0"), ("amplitude", "1"), ("exponent", "1"), ("offset", "0")],
        "feDisplacementMap" => &[("scale", "0"), ("xChannelSelector", "A"), ("yChannelSelector", "A")],
        "feImage" => &[("preserveAspectRatio", "xMidYMid meet")],
        "feConvolveMatrix" => &[("order", "3"), ("bias", "0"), ("edgeMode", "duplicate"), ("preserveAlpha", "false")],
        _ => &[],
    }
}

fn flat_paint(s: &Stop) -> Paint {
    if s.a <= 0.0 { return Paint::None; }
    // encode alpha as a degenerate gradient
    Paint::Lin { inv: Mat::ID, p1: (0.0, 0.0), p2: (1.0, 0.0), spread: 0, stops: Rc::new(vec![Stop { off: 0.0, ..s.clone() }, Stop { off: 1.0, ..s.clone() }]) }
}

pub fn hints(st: &Style, props: &[&str]) -> String {
    let mut s = String::new();
    for p in props { let v = st.get(p); s.push_str(v); s.push('|'); }
    s
}

fn norm_num(s: &str) -> String { match parse_len(s) { Some((v, u)) => format!("{:.3}{}", v, u), None => s.trim().to_string() } }

pub fn norm_par(p: &str) -> String {
    let t: Vec<&str> = p.split_whitespace().filter(|x| *x != "meet").collect();
    let j = t.join(" ");
    if j.is_empty() { "xMidYMid".into() } else { j }
}

fn par_map(v: &[f64], w: f64, h: f64, par: &str) -> Mat {
    let (sx, sy) = (w / v[2], h / v[3]);
    let t: Vec<&str> = par.split_whitespace().filter(|s| *s != "defer").collect();
    let al = t.first().cloned().unwrap_or("xMidYMid");
    if al == "none" { return Mat::scale(sx, sy).mul(&Mat::tr(-v[0], -v[1])); }
    let s = if t.get(1) == Some(&"slice") { sx.max(sy) } else { sx.min(sy) };
    let fx = if al.starts_with("xMin") { 0.0 } else if al.starts_with("xMax") { 1.0 } else { 0.5 };
    let fy = if al.contains("YMin") { 0.0 } else if al.contains("YMax") { 1.0 } else { 0.5 };
    Mat::tr((w - v[2] * s) * fx, (h - v[3] * s) * fy).mul(&Mat::scale(s, s)).mul(&Mat::tr(-v[0], -v[1]))
}

pub fn numlist(s: &str) -> Vec<f64> {
    let mut p = NumScan::new(s);
    let mut o = vec![];
    p.ws();
    while !p.end() { match p.num() { Some(v) => { o.push(v); p.sep(); } None => break } }
    o
}

fn toks(s: &str, t: &mut Vec<Tok>) {
    for p in s.split(|c: char| c == ',' || c.is_whitespace()).filter(|x| !x.is_empty()) {
        let mut sc = NumScan::new(p);
        let mut buf = vec![];
        while sc.i < p.len() { match sc.num() { Some(v) => buf.push(Tok::N(v)), None => break } }
        if sc.i == p.len() && !buf.is_empty() { t.extend(buf) }
        else if buf.len() == 1 { t.extend(buf); t.push(Tok::S(p[sc.i..].into())); }
        else { t.push(Tok::S(p.into())); }
    }
}

pub fn parse_op(s: &str) -> f64 { num(s).unwrap_or(1.0).max(0.0).min(1.0) }

pub fn local_bbox(items: &[Item], m: &Mat) -> Option<[f64; 4]> {
    let inv = m.inv()?;
    fn rec(items: &[Item], inv: &Mat, bb: &mut Option<[f64; 4]>) {
        for i in items {
            match i {
                Item::G(g) => rec(&g.items, inv, bb),
                Item::D(d) => {
                    if let Some(b) = d.flat.bbox {
                        let r = inv.mul(&d.ctm);
                        if (r.b.abs() < 1e-12 && r.c.abs() < 1e-12) || (r.a.abs() < 1e-12 && r.d.abs() < 1e-12) { *bb = union(*bb, Some(map_bbox(b, &r))); }
                        else { for s in d.flat.subs.iter().filter(|s| s.pts.iter().any(|p| crate::geom::dist(*p, s.pts[0]) > 1e-9)) { for &p in &s.pts { let q = r.ap(p); *bb = union(*bb, Some([q.0, q.1, q.0, q.1])); } } }
                    }
                }
                Item::T(gl) => for g in gl.iter() { *bb = union(*bb, Some(map_bbox([0.0, -0.8, 0.6, 0.2], &inv.mul(&g.m)))); },
                Item::I(im) => { let r = im.rect; *bb = union(*bb, Some(map_bbox([r[0], r[1], r[0] + r[2], r[1] + r[3]], &inv.mul(&im.ctm)))); }
            }
        }
    }
    let mut bb = None;
    rec(items, &inv, &mut bb);
    // an extent that is only rounding noise is no extent
    if let Some(b) = bb.as_mut() { for k in 0..2 { if b[k + 2] - b[k] < 1e-7 { b[k + 2] = b[k]; } } }
    bb
}

pub fn build(d: &Doc) -> Scene {
    let css = collect_css(d);
    let cssu = css.unsupported;
    let root = d.root;
    let mut vp = (100.0, 100.0);
    let mut rootkey = vec![];
    for a in ["width", "height"] {
        let v = d.attr(root, a).unwrap_or("100%");
        toks(v.trim().trim_end_matches("px"), &mut rootkey);
        if let Some((x, u)) = parse_len(v) { if u != "%" { if a == "width" { vp.0 = abs_len(x, u) } else { vp.1 = abs_len(x, u) } } }
    }
    if let Some(v) = d.attr(root, "viewBox") {
        let l = numlist(v);
        rootkey.push(Tok::S("viewBox".into()));
        for x in &l { rootkey.push(Tok::N(*x)); }
        if l.len() == 4 { vp = (l[2], l[3]); }
        let par = norm_par(d.attr(root, "preserveAspectRatio").unwrap_or("xMidYMid meet"));
        rootkey.push(Tok::S(par));
    }
    let b = B { d, css, ids: d.ids(), vp: vec![vp], unsupported: RefCell::new(vec![]), depth: RefCell::new(0), count: RefCell::new(0), mk: RefCell::new(vec![]), link: RefCell::new(vec![]) };
    if cssu { b.uns("css selector"); }
    let st = compute(d, &b.css, root, &Style::root());
    let mut items = vec![];
    if d.svg(root) == "svg" && st.get("display") != "none" {
        let mut inner = vec![];
        // SVG 1.1 has no 'transform' on 'svg'; the cleaner's own one is applied leniently (known finding K7)
        let m = b.transform_attr(root, "transform");
        b.children(root, &m, &st, &mut inner);
        b.layer(root, &Mat::ID, &st, inner, &mut items);
    } else if d.svg(root) != "svg" { b.uns("root is not svg"); }
    let u = b.unsupported.borrow().clone();
    let c = *b.count.borrow();
    Scene { root: Group { opacity: 1.0, items, ..Default::default() }, rootkey, unsupported: u, count: c, fonts: fonts(d), views: views(d) }
}

const FE_ATTRS: &[&str] = &["x", "y", "width", "height", "in", "in2", "result", "type", "values", "tableValues", "slope", "intercept", "amplitude", "exponent", "offset", "operator", "k1", "k2", "k3", "k4", "order",
    "kernelMatrix", "divisor", "bias", "targetX", "targetY", "edgeMode", "preserveAlpha", "kernelUnitLength", "surfaceScale", "diffuseConstant", "specularConstant", "specularExponent", "scale", "xChannelSelector",
    "yChannelSelector", "stdDeviation", "radius", "dx", "dy", "mode", "preserveAspectRatio", "xlink:href", "baseFrequency", "numOctaves", "seed", "stitchTiles", "azimuth", "elevation", "z", "pointsAtX", "pointsAtY",
    "pointsAtZ", "limitingConeAngle"];

/// (attribute, value when missing)
type Keys = &'static [(&'static str, &'static str)];
const FONT: Keys = &[("horiz-origin-x", "0"), ("horiz-origin-y", "0"), ("horiz-adv-x", ""), ("vert-origin-x", ""), ("vert-origin-y", ""), ("vert-adv-y", "")];
const FACE: Keys = &[("font-family", ""), ("units-per-em", "1000"), ("panose-1", "0 0 0 0 0 0 0 0 0 0"), ("stemv", ""), ("stemh", ""), ("slope", "0"), ("cap-height", ""), ("x-height", ""), ("accent-height", ""), ("ascent", ""), ("descent", ""),
    ("unicode-range", "U+0-10FFFF"), ("widths", ""), ("bbox", ""), ("ideographic", ""), ("alphabetic", "0"), ("mathematical", ""), ("hanging", ""), ("v-ideographic", ""), ("v-alphabetic", ""), ("v-mathematical", ""), ("v-hanging", ""),
    ("underline-position", ""), ("underline-thickness", ""), ("strikethrough-position", ""), ("strikethrough-thickness", ""), ("overline-position", ""), ("overline-thickness", "")];
const GLYPH: Keys = &[("unicode", ""), ("glyph-name", ""), ("orientation", ""), ("arabic-form", ""), ("lang", ""), ("horiz-adv-x", ""), ("vert-origin-x", ""), ("vert-origin-y", ""), ("vert-adv-y", "")];
const KERN: Keys = &[("u1", ""), ("g1", ""), ("u2", ""), ("g2", ""), ("k", "")];

fn keys(d: &Doc, n: usize, k: Keys, t: &mut Vec<Tok>) {
    t.push(Tok::S(d.svg(n).to_string()));
    for (a, def) in k {
        let v = d.attr(n, a).unwrap_or(def);
        if matches!(*a, "unicode" | "u1" | "u2" | "glyph-name" | "g1" | "g2" | "font-family" | "unicode-range") { t.push(Tok::S(v.to_string())); } else { t.push(Tok::S(a.to_string())); toks(v, t); }
    }
}

/// The outline of a glyph: absolute points of its flattened path.
fn outline(d: &Doc, n: usize, t: &mut Vec<Tok>) {
    let segs = match d.attr(n, "d").map(crate::geom::parse_path) { Some(Ok(s)) | Some(Err(s)) => s, None => return };
    for s in &segs { let e = format!("{:?}", s); t.push(Tok::S(e.chars().take(1).collect())); toks(&e.replace(|c: char| !(c.is_ascii_digit() || c == '.' || c == '-' || c == 'e'), " "), t); }
}

fn fonts(d: &Doc) -> Vec<Vec<Tok>> {
    let mut out = vec![];
    for n in d.elems() {
        let tag = d.svg(n);
        let in_font = d.parent(n).map_or(false, |p| d.svg(p) == "font");
        if !(tag == "font" || (tag == "font-face" && !in_font)) { continue; }
        let mut t = vec![];
        let mut stack = vec![n];
        while let Some(e) = stack.pop() {
            match d.svg(e) {
                "font" => keys(d, e, FONT, &mut t),
                "font-face" => keys(d, e, FACE, &mut t),
                "glyph" | "missing-glyph" => { keys(d, e, GLYPH, &mut t); outline(d, e, &mut t); continue; }
                "hkern" | "vkern" => keys(d, e, KERN, &mut t),
                "font-face-src" => t.push(Tok::S("src".into())),
                "font-face-uri" => keys(d, e, &[("xlink:href", "")], &mut t),
                "font-face-format" => keys(d, e, &[("string", "")], &mut t),
                "font-face-name" => keys(d, e, &[("name", "")], &mut t),
                _ => continue,
            }
            for c in d.children(e).iter().rev() { stack.push(*c); }
        }
        out.push(t);
    }
    out
}

fn views(d: &Doc) -> Vec<Vec<Tok>> {
    let mut out = vec![];
    for n in d.elems() {
        let mut t = vec![];
        match d.svg(n) {
            "view" => { keys(d, n, &[("viewBox", ""), ("preserveAspectRatio", "xMidYMid meet"), ("zoomAndPan", "magnify"), ("viewTarget", "")], &mut t) }
            "color-profile" => keys(d, n, &[("local", ""), ("name", ""), ("rendering-intent", "auto"), ("xlink:href", "")], &mut t),
            _ => continue,
        }
        out.push(t);
    }
    out
}

// -------------------------------------------------------------------- evaluation
fn over(dst: &mut Rgba, src: Rgba) {
    let k = 1.0 - src[3];
    for i in 0..4 { dst[i] = src[i] + dst[i] * k; }
}

fn grad_color(t: f64, spread: u8, stops: &[Stop]) -> Rgba {
    let mut t = t;
    let linear = spread & 4 != 0;
    match spread & 3 {
        1 => { let k = t.rem_euclid(2.0); t = if k > 1.0 { 2.0 - k } else { k }; }
        2 => { t = t.rem_euclid(1.0); }
        _ => {}
    }
    let f = &stops[0];
    let l = &stops[stops.len() - 1];
    let (c, a) = if t < f.off { (f.c, f.a) } else if t >= l.off { (l.c, l.a) } else {
        let mut r = (l.c, l.a);
        for w in stops.windows(2) {
            if t >= w[0].off && t < w[1].off {
                let k = (t - w[0].off) / (w[1].off - w[0].off);
                let mut c = [0.0; 3];
                for i in 0..3 {
                    c[i] = if linear { (w[0].c[i].powf(2.2) + k * (w[1].c[i].powf(2.2) - w[0].c[i].powf(2.2))).powf(1.0 / 2.2) } else { w[0].c[i] + k * (w[1].c[i] - w[0].c[i]) };
                }
                r = (c, w[0].a + k * (w[1].a - w[0].a));
                break;
            }
        }
        r
    };
    [c[0] * a, c[1] * a, c[2] * a, a]
}

pub fn paint_at(p: &Paint, pt: Pt) -> Rgba {
    match p {
        Paint::None => [0.0; 4],
        Paint::Color(c) => [c[0], c[1], c[2], 1.0],
        Paint::Lin { inv, p1, p2, spread, stops } => {
            let q = inv.ap(pt);
            let (dx, dy) = (p2.0 - p1.0, p2.1 - p1.1);
            let t = ((q.0 - p1.0) * dx + (q.1 - p1.1) * dy) / (dx * dx + dy * dy);
            grad_color(t, *spread, stops)
        }
        Paint::Rad { inv, c, r, f, spread, stops } => {
            let q = inv.ap(pt);
            // focal clamped inside the circle
            let mut fx = f.0 - c.0;
            let mut fy = f.1 - c.1;
            let fd = fx.hypot(fy);
            if fd > r * 0.99 { fx *= r * 0.99 / fd; fy *= r * 0.99 / fd; }
            let (px, py) = (q.0 - c.0 - fx, q.1 - c.1 - fy);
            // solve |f + (p-f)/t - c*...| : find t s.t. p lies on circle centered f*(1-t) radius r*t
            // |p + f - f*(1-t)|= r t  with p relative to f => |p + f t| = r t
            let a = r * r - (fx * fx + fy * fy);
            let b = px * fx + py * fy;
            let cc = px * px + py * py;
            let disc = (b * b + a * cc).max(0.0);
            let t = (b + disc.sqrt()) / a;
            grad_color(t, *spread, stops)
        }
        Paint::Pat { inv, rect, items } => {
            let q = inv.ap(pt);
            let x = rect[0] + (q.0 - rect[0]).rem_euclid(rect[2]);
            let y = rect[1] + (q.1 - rect[1]).rem_euclid(rect[3]);
            let mut o = [0.0; 4];
            eval_items(items, (x, y), &mut o);
            o
        }
    }
}

/// A shape that can leave a mark: its paint is not an empty pattern.
pub fn paints(d: &Draw) -> bool {
    let p = |p: &Paint| match p { Paint::None => false, Paint::Pat { items, .. } => items.iter().any(|i| match i { Item::D(d) => paints(d), Item::G(g) => !g.items.is_empty(), _ => true }), _ => true };
    d.painted && d.inv.is_some() && (p(&d.fill) && d.fill_op > 0.0 || p(&d.stroke) && d.stroke_op > 0.0)
}

/// All the points of a shape lie on one line: there is nothing to fill.
fn collinear(f: &Flat) -> bool {
    f.subs.iter().all(|s| {
        let p = &s.pts;
        if p.len() < 3 { return true; }
        let a = p[0];
        let mut far = a;
        let mut md = 0.0;
        for q in p { let d = dist(a, *q); if d > md { md = d; far = *q; } }
        if md < 1e-9 { return true; }
        let n = (-(far.1 - a.1) / md, (far.0 - a.0) / md);
        p.iter().all(|q| ((q.0 - a.0) * n.0 + (q.1 - a.1) * n.1).abs() < 2e-4)
    })
}

fn in_bb(b: &[f64; 4], p: Pt) -> bool { p.0 >= b[0] - 0.01 && p.0 <= b[2] + 0.01 && p.1 >= b[1] - 0.01 && p.1 <= b[3] + 0.01 }

pub fn clip_hit(c: &Clip, p: Pt) -> bool {
    if let Some(o) = &c.own { if !clip_hit(o, p) { return false; } }
    if let Some((inv, r)) = &c.rect {
        return match inv { Some(i) => { let q = i.ap(p); q.0 >= r[0] && q.1 >= r[1] && q.0 <= r[0] + r[2] && q.1 <= r[1] + r[3] } None => false };
    }
    let mut o = [0.0; 4];
    eval_items(&c.shapes, p, &mut o);
    o[3] > 0.0
}

fn hash01(s: &str, k: u64) -> f64 {
    let mut h = 1469598103934665603u64 ^ k.wrapping_mul(0x9E3779B97F4A7C15);
    for b in s.bytes() { h = (h ^ b as u64).wrapping_mul(1099511628211); }
    h ^= h >> 29;
    (h % 1000) as f64 / 999.0
}

pub fn eval_group(g: &Group, p: Pt) -> Rgba {
    if let Some(c) = &g.clip { if !clip_hit(c, p) { return [0.0; 4]; } }
    let mut o = [0.0; 4];
    eval_items(&g.items, p, &mut o);
    if g.filter.is_some() { o = [o[1] * 0.9, o[2] * 0.9, o[0] * 0.9, o[3]]; }
    let mut k = g.opacity;
    if let Some(m) = &g.mask {
        k *= mask_at(m, p);
    }
    for v in o.iter_mut() { *v *= k; }
    o
}

fn mask_at(m: &MaskR, p: Pt) -> f64 {
    match &m.inv {
        Some(i) => {
            let q = i.ap(p);
            let r = m.rect;
            if q.0 < r[0] || q.1 < r[1] || q.0 > r[0] + r[2] || q.1 > r[1] + r[3] { return 0.0; }
        }
        None => return 0.0,
    }
    let c = eval_group(&m.group, p);
    let v = |k: usize| if m.linear && c[3] > 0.0 { (c[k] / c[3]).max(0.0).powf(2.2) * c[3] } else { c[k] };
    0.2125 * v(0) + 0.7154 * v(1) + 0.0721 * v(2)
}

pub fn eval_items(items: &[Item], p: Pt, out: &mut Rgba) {
    for it in items {
        match it {
            Item::G(g) => { let c = eval_group(g, p); over(out, c); }
            Item::D(d) => {
                if !d.painted { continue; }
                match d.aabb { Some(ref b) if in_bb(b, p) => {} _ => continue }
                let q = match &d.inv { Some(i) => i.ap(p), None => continue };
                if !matches!(d.fill, Paint::None) && d.fill_op > 0.0 && d.flat.inside(q, d.evenodd) {
                    let mut c = paint_at(&d.fill, p);
                    for v in c.iter_mut() { *v *= d.fill_op; }
                    over(out, c);
                }
                if !matches!(d.stroke, Paint::None) && d.stroke_op > 0.0 && d.runs.hit(q, &d.sg) {
                    let mut c = paint_at(&d.stroke, p);
                    for v in c.iter_mut() { *v *= d.stroke_op; }
                    over(out, c);
                }
            }
            Item::T(gl) => {
                for g in gl.iter() {
                    if !g.evisible || g.ch == ' ' { continue; }
                    let i = match g.m.inv() { Some(i) => i, None => continue };
                    let q = i.ap(p);
                    if q.0 >= 0.05 && q.0 <= 0.55 && q.1 <= 0.0 && q.1 >= -0.7 {
                        let mut c = paint_at(&g.fill, p);
                        for v in c.iter_mut() { *v *= g.fill_op; }
                        over(out, c);
                    }
                }
            }
            Item::I(im) => {
                if !in_bb(&im.aabb, p) { continue; }
                let i = match im.ctm.inv() { Some(i) => i, None => continue };
                let q = i.ap(p);
                let r = im.rect;
                if q.0 >= r[0] && q.1 >= r[1] && q.0 <= r[0] + r[2] && q.1 <= r[1] + r[3] {
                    over(out, [hash01(&im.href, 1), hash01(&im.href, 2), hash01(&im.href, 3), 1.0]);
                }
            }
        }
    }
}

pub fn eval(s: &Scene, p: Pt) -> Rgba { eval_group(&s.root, p) }

/// Whether an element means something as a part of a filter or of a primitive.
fn is_fe(tag: &str, parent: &str) -> bool {
    if !tag.starts_with("fe") { return false; }
    match tag {
        "feFuncR" | "feFuncG" | "feFuncB" | "feFuncA" => parent == "feComponentTransfer",
        "feMergeNode" => parent == "feMerge",
        "feDistantLight" | "fePointLight" | "feSpotLight" => parent == "feDiffuseLighting" || parent == "feSpecularLighting",
        _ => parent == "filter",
    }
}
