//! Seeded generator of valid SVG documents, by feature profile.
use crate::rng::Rng;

#[derive(Clone, Debug)]
pub enum Ch { E(El), T(String), Raw(String) }
#[derive(Clone, Debug)]
pub struct El { pub name: String, pub at: Vec<(String, String)>, pub ch: Vec<Ch> }

impl El {
    pub fn new(n: &str) -> El { El { name: n.into(), at: vec![], ch: vec![] } }
    pub fn set(&mut self, k: &str, v: impl Into<String>) {
        let v = v.into();
        if let Some(a) = self.at.iter_mut().find(|a| a.0 == k) { a.1 = v; } else { self.at.push((k.into(), v)); }
    }
    pub fn get(&self, k: &str) -> Option<&str> { self.at.iter().find(|a| a.0 == k).map(|a| a.1.as_str()) }
    pub fn has(&self, k: &str) -> bool { self.get(k).is_some() }
    pub fn del(&mut self, k: &str) { self.at.retain(|a| a.0 != k); }
    pub fn push(&mut self, e: El) { self.ch.push(Ch::E(e)); }
    pub fn text(&mut self, t: impl Into<String>) { self.ch.push(Ch::T(t.into())); }
    pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a El)) { f(self); for c in &self.ch { if let Ch::E(e) = c { e.walk(f) } } }
    pub fn walk_mut(&mut self, f: &mut dyn FnMut(&mut El)) { f(self); for c in &mut self.ch { if let Ch::E(e) = c { e.walk_mut(f) } } }
}

/// Percentages / limits describing which parts of SVG a case exercises.
#[derive(Clone, Debug)]
pub struct Prof {
    pub elems: usize,       // body elements
    pub depth: usize,       // group nesting
    pub group: u32,         // chance that a body child is a group
    pub path: u32,          // chance that a shape is a path
    pub path_len: usize,
    pub curves: u32,
    pub transform: u32,
    pub ts_any: u32,        // chance of non-uniform/rotate/skew vs translate/uniform scale
    pub style: u32,         // chance of each common style property on shapes
    pub gstyle: u32,        // same, on groups
    pub stroke: u32,
    pub opacity: u32,
    pub defaults: u32,      // chance of explicit default values
    pub grad: u32,          // paint refers to a gradient
    pub grads: usize,       // number of gradients
    pub ghref: u32,
    pub pattern: u32,
    pub clip: u32,
    pub mask: u32,
    pub marker: u32,
    pub filter: u32,
    pub usee: u32,
    pub symbol: u32,
    pub nested: u32,
    pub text: u32,
    pub image: u32,
    pub link: u32,
    pub switch: u32,
    pub css: u32,           // chance that the document carries a style sheet
    pub style_attr: u32,    // chance an element's properties move to style=""
    pub inherit: u32,
    pub current: u32,
    pub invisible: u32,
    pub units: u32,
    pub junk: u32,          // comments, metadata, foreign elements/attributes
    pub decimals: u32,      // max decimals
    pub grid: u32,          // chance coordinates snap to a coarse grid
    pub scale: f64,         // size of the drawing
    pub unused_defs: u32,
    pub inline_defs: u32,   // chance that a definition sits in the body, not in <defs>
    pub ids: u32,           // extra ids on elements
    pub textattrs: u32,
    pub entities: u32,
    pub dup: u32,           // duplicate definitions
}

impl Default for Prof {
    fn default() -> Prof {
        Prof {
            elems: 5, depth: 2, group: 25, path: 45, path_len: 7, curves: 45, transform: 20, ts_any: 40, style: 30, gstyle: 25, stroke: 40, opacity: 15,
            defaults: 12, grad: 0, grads: 2, ghref: 30, pattern: 0, clip: 0, mask: 0, marker: 0, filter: 0, usee: 0, symbol: 0, nested: 0, text: 0, image: 0,
            link: 0, switch: 0, css: 0, style_attr: 15, inherit: 0, current: 0, invisible: 0, units: 0, junk: 5, decimals: 2, grid: 30, scale: 100.0,
            unused_defs: 15, inline_defs: 15, ids: 15, textattrs: 10, entities: 0, dup: 25,
        }
    }
}

pub struct G<'r> {
    pub r: &'r mut Rng,
    pub p: Prof,
    pub nid: usize,
    pub lin: Vec<String>,
    pub rad: Vec<String>,
    pub pat: Vec<String>,
    pub clips: Vec<String>,
    pub masks: Vec<String>,
    pub markers: Vec<String>,
    pub filters: Vec<String>,
    pub usable: Vec<String>,
    pub symbols: Vec<String>,
    /// the unit of all coordinates of an element
    pub unit: Option<&'static str>,
    pub tpaths: Vec<String>,
    pub defs: Vec<El>,
    pub classes: Vec<String>,
    pub no_fx: bool,
}

pub fn identity(s: Option<&str>) -> bool {
    s.map_or(false, |s| crate::geom::parse_transform(s).map_or(false, |m| { let d = [m.a - 1.0, m.b, m.c, m.d - 1.0, m.e, m.f]; d.iter().all(|v| v.abs() < 1e-9) }))
}

pub fn fmt(v: f64) -> String {
    let s = format!("{:.6}", v);
    let s = s.trim_end_matches('0').trim_end_matches('.');
    if s == "-0" || s.is_empty() { "0".into() } else { s.into() }
}

pub const COLS: &[&str] = &["red", "#f00", "#00ff00", "blue", "#123456", "rgb(10,200,30)", "orange", "#abc", "white", "black", "#000000", "#ffffff",
    "rgb(50%,20%,10%)", "steelblue", "#808080", "gray", "#0000ff", "yellowgreen", "#fedcba"];

impl<'r> G<'r> {
    pub fn new(r: &'r mut Rng, p: Prof) -> G<'r> {
        G { r, p, nid: 0, lin: vec![], rad: vec![], pat: vec![], clips: vec![], masks: vec![], markers: vec![], filters: vec![], usable: vec![],
            symbols: vec![], tpaths: vec![], defs: vec![], classes: vec![], no_fx: false, unit: None }
    }
    pub fn id(&mut self) -> String {
        self.nid += 1;
        let k = self.nid;
        match self.r.n(7) {
            // looks like a trimmed id
            6 => { let c = |i: usize| (b'a' + (i % 26) as u8) as char; if k <= 26 { c(k - 1).to_string() } else { format!("{}{}", c(k / 26), c(k)) } }
            0 => format!("a{}", k),
            1 => format!("linearGradient{}", 1000 + k * 7),
            2 => format!("SVGID_{}_", k),
            3 => format!("path-{}.x", k),
            4 => format!("{}{}", ["A", "b", "Z", "q"][k % 4], k),
            _ => format!("id{:03}", k),
        }
    }
    pub fn n(&mut self, a: f64, b: f64) -> f64 {
        let v = self.r.r(a, b);
        if self.r.p(self.p.grid) { let g = (b - a) / 10.0; return ((v / g).round() * g * 1e6).round() / 1e6; }
        let d = if self.p.decimals == 0 { 0 } else { self.r.n(self.p.decimals as usize + 1) };
        let k = 10f64.powi(d as i32);
        (v * k).round() / k
    }
    pub fn ns(&mut self, a: f64, b: f64) -> String { let v = self.n(a, b); self.fnum(v) }
    /// random lexical form of a number
    pub fn fnum(&mut self, v: f64) -> String {
        let s = fmt(v);
        match self.r.n(40) {
            0 if !s.starts_with('-') => format!("+{}", s),
            1 if s.starts_with("0.") => s[1..].to_string(),
            2 if s.contains('.') => format!("{}0", s),
            3 if v != 0.0 && !s.contains('.') && v.abs() >= 10.0 && (v as i64) % 10 == 0 => format!("{}e1", fmt(v / 10.0)),
            4 if s.starts_with("-0.") => format!("-{}", &s[2..]),
            5 if v != 0.0 => { let q = v * 10.0; format!("{}E-1", fmt(q)) }
            _ => s,
        }
    }
    pub fn coord(&mut self) -> f64 { let s = self.p.scale; self.n(0.0, s) }
    /// a length attribute value
    pub fn len(&mut self, a: f64, b: f64) -> String {
        let v = self.n(a, b);
        if self.r.p(if self.unit.is_some() { 85 } else { self.p.units }) {
            let u = if let Some(u) = self.unit { u } else { *self.r.pickv(&[&"px", &"mm", &"pt", &"%", &"em", &"in", &"cm", &"pc", &"ex"]) };
            let v = match u { "mm" => v / 4.0, "in" => v / 96.0, "cm" => v / 38.0, "em" | "pc" => v / 16.0, "ex" => v / 8.0, _ => v };
            return format!("{}{}", fmt((v * 100.0).round() / 100.0), u);
        }
        let s = self.fnum(v);
        if self.r.p(6) { format!("{}px", s) } else { s }
    }
    pub fn color(&mut self) -> String {
        match self.r.n(5) {
            0 => format!("#{:06x}", self.r.n(0x1000000)),
            1 => format!("rgb({}, {}, {})", self.r.n(256), self.r.n(256), self.r.n(256)),
            _ => self.r.pick(COLS).to_string(),
        }
    }
    pub fn opac(&mut self) -> String {
        match self.r.n(8) { 0 => "1".into(), 1 if self.r.p(self.p.invisible) => "0".into(), 2 => ".5".into(), _ => fmt((self.r.r(0.1, 1.0) * 100.0).round() / 100.0) }
    }
    pub fn pick_str(&mut self, v: &[String]) -> Option<String> { if v.is_empty() { None } else { let i = self.r.n(v.len()); Some(v[i].clone()) } }

    pub fn transform(&mut self) -> String {
        let k = 1 + self.r.n(2);
        let mut s = String::new();
        for i in 0..k {
            if i > 0 { s.push_str(["", " ", ",", "  "][self.r.n(4)]); }
            let any = self.r.p(self.p.ts_any);
            let t = if !any {
                match self.r.n(5) {
                    0 => format!("translate({} {})", self.ns(-30.0, 30.0), self.ns(-30.0, 30.0)),
                    1 => format!("translate({})", self.ns(-30.0, 30.0)),
                    2 => format!("scale({})", fmt((self.r.r(0.5, 2.0) * 20.0).round() / 20.0)),
                    3 => format!("matrix(1 0 0 1 {} {})", self.ns(-30.0, 30.0), self.ns(-30.0, 30.0)),
                    _ => { let s = fmt((self.r.r(0.5, 2.0) * 20.0).round() / 20.0); format!("matrix({},0,0,{},{},{})", s, s, self.ns(-30.0, 30.0), self.ns(-30.0, 30.0)) }
                }
            } else {
                match self.r.n(9) {
                    0 => format!("rotate({})", self.ns(-180.0, 180.0)),
                    1 => format!("rotate({} {} {})", self.ns(-90.0, 90.0), self.ns(0.0, 60.0), self.ns(0.0, 60.0)),
                    2 => format!("scale({} {})", fmt((self.r.r(0.4, 2.0) * 20.0).round() / 20.0), fmt((self.r.r(0.4, 2.0) * 20.0).round() / 20.0)),
                    3 => format!("skewX({})", self.ns(-40.0, 40.0)),
                    4 => format!("skewY({})", self.ns(-40.0, 40.0)),
                    5 => format!("scale({})", ["-1", "-1 1", "1 -1", "-.5"][self.r.n(4)]),
                    6 => format!("rotate({})", ["90", "180", "-90", "45", "270"][self.r.n(5)]),
                    _ => {
                        let m = [self.r.r(0.4, 1.5), self.r.r(-0.8, 0.8), self.r.r(-0.8, 0.8), self.r.r(0.4, 1.5)];
                        let f = |v: f64| fmt((v * 1000.0).round() / 1000.0);
                        format!("matrix({} {} {} {} {} {})", f(m[0]), f(m[1]), f(m[2]), f(m[3]), self.ns(-30.0, 30.0), self.ns(-30.0, 30.0))
                    }
                }
            };
            s.push_str(&t);
        }
        s
    }

    pub fn path(&mut self) -> String {
        let mut s = String::new();
        let n = 1 + self.r.n(self.p.path_len.max(1));
        let sc = self.p.scale;
        let (mut x, mut y) = (self.coord(), self.coord());
        let (mut mx, mut my) = (x, y);
        let mut lastc: Option<(f64, f64)> = None;
        let mut lastq: Option<(f64, f64)> = None;
        s.push_str(&format!("{}{} {}", if self.r.p(15) { "m" } else { "M" }, fmt(x), fmt(y)));
        let mut prevcmd = 'M';
        for _ in 0..n {
            let curve = self.r.p(self.p.curves);
            let kind = if curve { ['C', 'C', 'C', 'S', 'Q', 'T', 'A', 'Q'][self.r.n(8)] } else { ['L', 'L', 'L', 'H', 'V', 'Z', 'M', 'L'][self.r.n(8)] };
            // consecutive closepath commands are merged on output, which matters only to markers (known finding K3)
            let kind = if kind == 'Z' && matches!(prevcmd, 'z' | 'Z') { 'L' } else { kind };
            let rel = self.r.p(50);
            // target
            let (mut tx, mut ty) = (self.coord(), self.coord());
            match self.r.n(12) {
                0 => { tx = x; }
                1 => { ty = y; }
                2 => { tx = x; ty = y; }
                3 => { tx = mx; ty = my; }
                4 => { // continue collinear with a small step
                    tx = x + [1.0, 2.0, -1.0, 5.0][self.r.n(4)]; ty = y;
                }
                _ => {}
            }
            let f = |g: &mut G, v: f64| { let v = (v * 1e4).round() / 1e4; g.fnum(v) };
            let (ox, oy) = if rel { (x, y) } else { (0.0, 0.0) };
            let c = if rel { kind.to_ascii_lowercase() } else { kind };
            let mut nc = None;
            let mut nq = None;
            let mut args: Vec<String> = vec![];
            let mut ends = (tx, ty);
            match kind {
                'M' | 'L' => { args.push(f(self, tx - ox)); args.push(f(self, ty - oy)); if kind == 'M' { mx = tx; my = ty; } }
                'H' => { args.push(f(self, tx - ox)); ends = (tx, y); }
                'V' => { args.push(f(self, ty - oy)); ends = (x, ty); }
                'C' | 'S' => {
                    let (mut c1, mut c2) = ((self.coord(), self.coord()), (self.coord(), self.coord()));
                    match self.r.n(8) {
                        0 => { // straight line
                            c1 = (x + (tx - x) * 0.25, y + (ty - y) * 0.25);
                            c2 = (x + (tx - x) * 0.75, y + (ty - y) * 0.75);
                        }
                        1 => { if let Some(l) = lastc { c1 = (2.0 * x - l.0, 2.0 * y - l.1); } }
                        2 => { c1 = (x, y); }
                        3 => { c2 = (tx, ty); }
                        5 if self.r.p(50) => { if let Some(l) = lastq { c1 = (2.0 * x - l.0, 2.0 * y - l.1); } } // looks smooth, but is not
                        4 => { c1 = (x + (tx - x) * 0.25, y); c2 = (x + (tx - x) * 0.75, y); }
                        _ => {}
                    }
                    if kind == 'C' { args.push(f(self, c1.0 - ox)); args.push(f(self, c1.1 - oy)); }
                    args.push(f(self, c2.0 - ox)); args.push(f(self, c2.1 - oy));
                    args.push(f(self, tx - ox)); args.push(f(self, ty - oy));
                    nc = Some(c2);
                }
                'Q' | 'T' => {
                    let mut c1 = (self.coord(), self.coord());
                    match self.r.n(6) {
                        0 => { if let Some(l) = lastq { c1 = (2.0 * x - l.0, 2.0 * y - l.1); } }
                        1 => { c1 = (x + (tx - x) * 0.5, y + (ty - y) * 0.5); }
                        2 if self.r.p(50) => { if let Some(l) = lastc { c1 = (2.0 * x - l.0, 2.0 * y - l.1); } }
                        3 if self.r.p(40) => { c1 = (x, y); }
                        _ => {}
                    }
                    if kind == 'T' {
                        c1 = match lastq { Some(l) => (2.0 * x - l.0, 2.0 * y - l.1), None => (x, y) };
                    } else { args.push(f(self, c1.0 - ox)); args.push(f(self, c1.1 - oy)); }
                    args.push(f(self, tx - ox)); args.push(f(self, ty - oy));
                    nq = Some(c1);
                }
                'A' => {
                    if (tx - x).abs() + (ty - y).abs() < 0.5 { tx += 7.0; ends = (tx, ty); }
                    let (rx, ry) = if self.r.p(8) { (0.0, self.n(1.0, sc / 2.0)) } else if self.r.p(40) { let r = self.n(1.0, sc / 2.0); (r, r) } else { (self.n(1.0, sc / 2.0), self.n(1.0, sc / 2.0)) };
                    let rot = if self.r.p(50) { "0".into() } else { self.ns(-90.0, 90.0) };
                    args.push(f(self, rx)); args.push(f(self, ry)); args.push(rot);
                    args.push(if self.r.p(50) { "1".into() } else { "0".into() });
                    args.push(if self.r.p(50) { "1".into() } else { "0".into() });
                    args.push(f(self, tx - ox)); args.push(f(self, ty - oy));
                }
                _ => { ends = (mx, my); }
            }
            x = ends.0; y = ends.1;
            lastc = nc; lastq = nq;
            // implicit command repetition
            let implicit = c == prevcmd && !matches!(kind, 'M' | 'Z') && self.r.p(40) || (prevcmd == 'M' && c == 'L' || prevcmd == 'm' && c == 'l') && self.r.p(40);
            if implicit { s.push(' '); } else {
                if self.r.p(30) { s.push(' '); }
                s.push(c);
            }
            // the path parser the tool is built on does not accept spaces before the comma after an arc flag (known finding K1)
            let sepk = if kind == 'A' { [0, 1, 3][self.r.n(3)] } else { self.r.n(4) };
            for (i, a) in args.iter().enumerate() {
                if i > 0 {
                    let tight = sepk == 3 && a.starts_with('-');
                    if !tight { s.push_str([" ", ",", " , ", " "][sepk]); }
                }
                s.push_str(a);
            }
            prevcmd = c;
        }
        if self.r.p(35) && !matches!(prevcmd, 'z' | 'Z') { s.push(if self.r.p(50) { 'z' } else { 'Z' }); }
        s
    }

    pub fn points(&mut self, n: usize) -> String {
        let mut s = String::new();
        let mut last = (0.0, 0.0);
        for i in 0..n {
            if i > 0 { s.push_str([" ", ",", "  ", "\n"][self.r.n(4)]); }
            let (mut x, mut y) = (self.coord(), self.coord());
            if i > 0 { match self.r.n(6) { 0 => x = last.0, 1 => y = last.1, _ => {} } }
            last = (x, y);
            s.push_str(&format!("{}{}{}", fmt(x), [" ", ","][self.r.n(2)], fmt(y)));
        }
        // an odd number of coordinates: the last one is ignored
        if self.r.p(4) { let v = self.coord(); s.push_str(&format!(" {}", fmt(v))); }
        s
    }

    /// Bare geometry element.
    pub fn geom(&mut self) -> El {
        let sc = self.p.scale;
        if self.r.p(self.p.path) {
            let mut e = El::new("path");
            let d = self.path();
            e.set("d", d);
            return e;
        }
        match self.r.n(6) {
            0 => {
                let mut e = El::new("rect");
                if !self.r.p(15) { let v = self.len(0.0, sc); e.set("x", v); }
                if !self.r.p(15) { let v = self.len(0.0, sc); e.set("y", v); }
                let v = self.len(1.0, sc * 0.7); e.set("width", v);
                let v = self.len(1.0, sc * 0.7); e.set("height", v);
                if self.r.p(30) { let v = self.len(0.0, sc * 0.2); e.set("rx", v); }
                if self.r.p(25) { let v = self.len(0.0, sc * 0.2); let v = match e.get("rx") { Some(x) if self.r.p(35) => x.to_string(), _ => v }; e.set("ry", v); }
                e
            }
            1 => {
                let mut e = El::new("circle");
                if !self.r.p(10) { let v = self.len(0.0, sc); e.set("cx", v); }
                if !self.r.p(10) { let v = self.len(0.0, sc); e.set("cy", v); }
                let v = self.len(1.0, sc * 0.4); e.set("r", v);
                e
            }
            2 => {
                let mut e = El::new("ellipse");
                if !self.r.p(10) { let v = self.len(0.0, sc); e.set("cx", v); }
                if !self.r.p(10) { let v = self.len(0.0, sc); e.set("cy", v); }
                let v = self.len(1.0, sc * 0.4); e.set("rx", v.clone());
                if self.r.p(75) { let v = self.len(1.0, sc * 0.4); e.set("ry", v); } else { e.set("ry", v); }
                e
            }
            3 => {
                let mut e = El::new("line");
                for a in ["x1", "y1", "x2", "y2"] { if !self.r.p(10) { let v = self.len(0.0, sc); e.set(a, v); } }
                e
            }
            4 => { let mut e = El::new("polyline"); let k = 2 + self.r.n(5); let v = self.points(k); e.set("points", v); e }
            _ => { let mut e = El::new("polygon"); let k = 3 + self.r.n(4); let v = self.points(k); e.set("points", v); e }
        }
    }

    pub fn paint_ref(&mut self) -> Option<String> {
        let mut v: Vec<String> = vec![];
        v.extend(self.lin.iter().cloned());
        v.extend(self.rad.iter().cloned());
        if self.r.p(self.p.grad) { if let Some(i) = self.pick_str(&v) { return Some(format!("url(#{})", i)); } }
        if self.r.p(self.p.pattern) { let l = self.pat.clone(); if let Some(i) = self.pick_str(&l) { return Some(format!("url(#{})", i)); } }
        None
    }
    pub fn paint(&mut self) -> String {
        if let Some(p) = self.paint_ref() { return p; }
        if self.r.p(self.p.current) { return "currentColor".into(); }
        self.color()
    }

    /// Style properties; `grp`: on a container.
    pub fn style(&mut self, e: &mut El, grp: bool) {
        let k = if grp { self.p.gstyle } else { self.p.style };
        let sw = self.p.scale / 25.0;
        let is_line = e.name == "line";
        if self.p.units > 0 && self.r.p(self.p.units / 2) && self.r.p(if grp { 60 } else { 30 }) { let v = self.r.pick(&["12", "10px", "1.5em", "20", "150%", "2ex"]).to_string(); e.set("font-size", v); }
        if self.r.p(k) || (!grp && is_line && self.r.p(80)) {
            let v = if self.r.p(12) { "none".to_string() } else { self.paint() };
            e.set("fill", v);
        }
        if self.r.p(if grp { k * self.p.stroke / 80 } else { self.p.stroke }) || (!grp && is_line) {
            let v = if self.r.p(8) { "none".into() } else { self.paint() };
            e.set("stroke", v);
            if self.r.p(70) { let v = self.len(0.3, sw); e.set("stroke-width", v); }
        } else if self.r.p(k / 3) { let v = self.len(0.3, sw); e.set("stroke-width", v); }
        let kk = k / 2;
        if self.r.p(kk) { let v = self.r.pick(&["evenodd", "nonzero"]).to_string(); e.set("fill-rule", v); }
        if self.r.p(kk) { let v = self.opac(); e.set("fill-opacity", v); }
        if self.r.p(kk) { let v = self.opac(); e.set("stroke-opacity", v); }
        if self.r.p(kk) { let v = self.r.pick(&["butt", "round", "square"]).to_string(); e.set("stroke-linecap", v); }
        if self.r.p(kk) { let v = self.r.pick(&["miter", "round", "bevel"]).to_string(); e.set("stroke-linejoin", v); }
        if self.r.p(kk / 2) { let v = self.r.pick(&["1", "2", "4", "10", "1.5"]).to_string(); e.set("stroke-miterlimit", v); }
        if self.r.p(kk / 2) {
            let a = self.n(0.5, sw * 2.0).max(0.2); let b = self.n(0.5, sw * 2.0).max(0.2); let c = self.n(0.5, sw * 2.0).max(0.2);
            let v = match self.r.n(4) { _ if self.r.p(self.p.units) => { let (a, b) = (self.len(0.5, sw * 2.0 + 4.0), self.len(0.5, sw * 2.0 + 4.0)); format!("{} {}", a, b) } 0 => "none".into(), 1 => format!("{},{}", fmt(a), fmt(b)), 2 => fmt(a), _ => format!("{} {}, {}", fmt(a), fmt(b), fmt(c)) };
            e.set("stroke-dasharray", v);
            if self.r.p(50) { let mut v = self.len(0.0, 5.0); if self.r.p(30) && !v.starts_with('-') { v = format!("-{}", v.trim_start_matches('+')); } e.set("stroke-dashoffset", v); }
        }
        if self.r.p(self.p.opacity) { let v = self.opac(); e.set("opacity", v); }
        if grp && self.r.p(self.p.invisible / 6) { e.set("display", "inline"); }
        if self.r.p(self.p.defaults) {
            let (a, v) = self.r.pickv(&[("fill", "#000000"), ("fill", "black"), ("stroke", "none"), ("stroke-width", "1"), ("fill-opacity", "1"), ("opacity", "1"),
                ("stroke-opacity", "1"), ("fill-rule", "nonzero"), ("stroke-linecap", "butt"), ("stroke-linejoin", "miter"), ("stroke-miterlimit", "4"),
                ("stroke-dasharray", "none"), ("stroke-dashoffset", "0"), ("display", "inline"), ("visibility", "visible"), ("clip-path", "none"), ("mask", "none"),
                ("filter", "none"), ("color", "black"), ("clip-rule", "nonzero"), ("shape-rendering", "auto"), ("overflow", "visible"), ("cursor", "auto"),
                ("pointer-events", "visiblePainted"), ("marker-start", "none"), ("enable-background", "accumulate")]);
            e.set(a, v);
        }
        if self.r.p(self.p.defaults / 3) { let v = self.r.pick(&["crispEdges", "geometricPrecision", "optimizeSpeed"]).to_string(); e.set("shape-rendering", v); }
        if self.r.p(2) { let (a, v) = *[("color-interpolation", "linearRGB"), ("color-interpolation-filters", "sRGB"), ("color-interpolation", "sRGB")].get(self.r.n(3)).unwrap(); e.set(a, v); }
        if self.r.p(self.p.inherit) {
            let a = self.r.pick(&["fill", "stroke", "stroke-width", "fill-opacity", "stroke-linecap", "fill-rule", "stroke-opacity", "stroke-dasharray"]).to_string();
            e.set(&a, "inherit");
        }
        if self.r.p(self.p.current) && (e.get("fill") == Some("currentColor") || e.get("stroke") == Some("currentColor")) { let c = if self.r.p(25) { "inherit".into() } else { self.color() }; e.set("color", c); }
        if self.r.p(self.p.invisible) {
            match self.r.n(10) {
                0 => e.set("display", "none"),
                1 => e.set("visibility", "hidden"),
                2 => e.set("opacity", "0"),
                3 => { e.set("fill", "none"); e.del("stroke"); }
                4 => { e.set("fill-opacity", "0"); }
                5 => { e.set("stroke-opacity", "0"); }
                6 => { e.set("stroke-width", "0"); }
                7 => e.set("visibility", if self.r.p(50) { "collapse" } else { "visible" }),
                8 => { if grp { e.set("visibility", "hidden") } else { e.set("visibility", "visible") } }
                _ => { e.set("fill", "none"); e.set("stroke", "none"); }
            }
        }
        if !self.no_fx {
            if self.r.p(self.p.clip) { let l = self.clips.clone(); if let Some(i) = self.pick_str(&l) { e.set("clip-path", format!("url(#{})", i)); } }
            if self.r.p(self.p.mask) { let l = self.masks.clone(); if let Some(i) = self.pick_str(&l) { e.set("mask", format!("url(#{})", i)); } }
            if self.r.p(self.p.filter) { let l = self.filters.clone(); if let Some(i) = self.pick_str(&l) { e.set("filter", format!("url(#{})", i)); } }
        }
        if self.r.p(self.p.marker) && (grp || matches!(e.name.as_str(), "path" | "line" | "polyline" | "polygon")) {
            for a in ["marker-start", "marker-mid", "marker-end"] {
                if self.r.p(50) { let l = self.markers.clone(); if let Some(i) = self.pick_str(&l) { e.set(a, format!("url(#{})", i)); } }
            }
        }
        if self.r.p(self.p.transform) { let v = self.transform(); e.set("transform", v); }
        if self.r.p(self.p.junk) {
            let (a, v) = self.r.pickv(&[("inkscape:label", "Layer 1"), ("sodipodi:nodetypes", "cccc"), ("data-x", "1"), ("xlink:title", "T"), ("xlink:show", "new"), ("inkscape:connector-curvature", "0"),
                ("xml:lang", "en"), ("foo", "b & \"q\" <r>")]);
            e.set(a, v);
        }
    }

    /// Move presentation attributes into a style attribute.
    pub fn restyle(&mut self, e: &mut El) {
        if !self.r.p(self.p.style_attr) { return; }
        let props = crate::style::PROPS;
        let mut s = String::new();
        let mut keep = vec![];
        for (k, v) in e.at.drain(..) {
            let isp = props.iter().any(|p| p.0 == k);
            if isp && !v.contains('\'') && self.r.p(80) {
                if !s.is_empty() { s.push_str([";", "; ", " ; "][self.r.n(3)]); }
                s.push_str(&format!("{}{}{}", k, [":", ": "][self.r.n(2)], v));
                // sometimes leave a conflicting presentation attribute behind: style must win
                if self.r.p(5) && k == "fill" { keep.push((k, "magenta".to_string())); }
            } else { keep.push((k, v)); }
        }
        if self.r.p(30) && !s.is_empty() { s.push(';'); }
        e.at = keep;
        if !s.is_empty() { e.set("style", s); }
    }

    pub fn shape(&mut self) -> El {
        let one = self.p.units / 2;
        if self.r.p(one) { self.unit = Some(*self.r.pickv(&[&"mm", &"cm", &"in", &"pt", &"px", &"em", &"%"])); }
        let mut e = self.geom();
        self.unit = None;
        self.style(&mut e, false);
        if self.r.p(self.p.ids) { let i = self.id(); e.set("id", i.clone()); if e.get("display") != Some("none") { self.usable.push(i); } }
        self.restyle(&mut e);
        e
    }

    // ------------------------------------------------------------ definitions
    pub fn stops(&mut self, e: &mut El) {
        let n = 1 + self.r.n(4);
        let mut off: f64 = if self.r.p(60) { 0.0 } else { 0.2 };
        for i in 0..n {
            let mut s = El::new("stop");
            let o = if i + 1 == n && self.r.p(60) { 1.0 } else { off };
            let o = (o * 100.0).round() / 100.0;
            let v = if self.r.p(30) { format!("{}%", fmt(o * 100.0)) } else { fmt(o) };
            s.set("offset", v);
            if !self.r.p(10) { let c = self.color(); s.set("stop-color", c); }
            if self.r.p(30) { let v = self.opac(); s.set("stop-opacity", v); }
            if self.r.p(10) { let i = self.id(); s.set("id", i); }
            self.restyle(&mut s);
            e.push(s);
            off = (off + self.r.r(0.0, 0.5)).min(1.0);
            if self.r.p(8) { off = (off * 100.0).round() / 100.0; }
        }
    }

    pub fn gradient(&mut self) {
        let linear = self.r.p(55);
        let mut e = El::new(if linear { "linearGradient" } else { "radialGradient" });
        let i = self.id();
        e.set("id", i.clone());
        let mut refs: Vec<String> = self.lin.iter().chain(self.rad.iter()).cloned().collect();
        refs.retain(|_| true);
        let href = self.r.p(self.p.ghref) && !refs.is_empty();
        let user = self.r.p(60);
        if self.r.p(70) { e.set("gradientUnits", if user { "userSpaceOnUse" } else { "objectBoundingBox" }); }
        let user = e.get("gradientUnits") == Some("userSpaceOnUse");
        let sc = self.p.scale;
        let keep = if href { 40 } else { 80 };
        let g = |me: &mut G| -> String { if user { me.ns(0.0, sc) } else if me.r.p(30) { format!("{}%", fmt((me.r.f() * 100.0).round())) } else { fmt((me.r.f() * 100.0).round() / 100.0) } };
        if linear {
            for a in ["x1", "y1", "x2", "y2"] { if self.r.p(keep) { let v = g(self); e.set(a, v); } }
        } else {
            for a in ["cx", "cy"] { if self.r.p(keep) { let v = g(self); e.set(a, v); } }
            if self.r.p(keep) { let v = if user { self.ns(sc * 0.2, sc) } else { fmt((self.r.r(0.2, 1.0) * 100.0).round() / 100.0) }; e.set("r", v); }
            if self.r.p(25) {
                // focal point near the centre so that it stays inside
                if let (Some(cx), Some(cy)) = (e.get("cx").map(|s| s.to_string()), e.get("cy").map(|s| s.to_string())) {
                    if self.r.p(40) { e.set("fx", cx); e.set("fy", cy); }
                    else if e.has("r") {
                        let bump = |s: &str, k: f64| -> String { match s.strip_suffix('%') { Some(p) => format!("{}%", fmt(p.parse::<f64>().unwrap_or(50.0) + k * 100.0)), None => fmt(s.parse::<f64>().unwrap_or(0.5) + if user { k * sc } else { k }) } };
                        if self.r.p(70) { e.set("fx", bump(&cx, 0.05)); }
                        if self.r.p(70) { e.set("fy", bump(&cy, -0.05)); }
                    }
                }
            }
        }
        if self.r.p(20) { let v = self.r.pick(&["pad", "reflect", "repeat"]).to_string(); e.set("spreadMethod", v); }
        if self.r.p(4) { let v = self.r.pick(&["linearRGB", "linearRGB", "sRGB"]).to_string(); e.set("color-interpolation", v); }
        if self.r.p(30) {
            let v = if user || self.r.p(50) { self.transform() } else { let s = self.r.r(0.5, 1.5); format!("rotate({} .5 .5) scale({})", self.r.i(-90, 90), fmt((s * 10.0).round() / 10.0)) };
            e.set("gradientTransform", v);
        }
        if href { let t = self.pick_str(&refs).unwrap(); e.set("xlink:href", format!("#{}", t)); }
        else if self.p.ghref > 0 && self.r.p(2) {
            // a link to something else has no effect
            let l: Vec<String> = self.pat.iter().chain(&self.tpaths).chain(&self.clips).chain(&self.symbols).cloned().collect();
            if let Some(t) = self.pick_str(&l) { e.set("xlink:href", format!("#{}", t)); }
        }
        // an explicit identity transform is dropped by the DOM the tool is built on, so it cannot override a linked one (known finding K2)
        if identity(e.get("gradientTransform")) { e.del("gradientTransform"); }
        if !href || self.r.p(25) { self.stops(&mut e); }
        if linear { self.lin.push(i.clone()); } else { self.rad.push(i.clone()); }
        // a duplicate under another id
        if self.r.p(self.p.dup) {
            let mut d = e.clone();
            let j = self.id();
            d.set("id", j.clone());
            d.walk_mut(&mut |s| if s.name == "stop" { s.del("id") });
            if self.r.p(45) { // near-duplicate: one thing is different
                match self.r.n(8) {
                    7 => d.set("color-interpolation", "linearRGB"),
                    0 => d.set("spreadMethod", "reflect"), 1 => { let v = self.transform(); if !identity(Some(&v)) { d.set("gradientTransform", v) } }, 2 => d.set("gradientUnits", "userSpaceOnUse"),
                    3 => { if let Some(Ch::E(s)) = d.ch.last_mut() { s.set("stop-opacity", "0.37"); s.del("style"); } }
                    4 => { let k = self.r.n(d.ch.len().max(1)); let c = self.color(); if let Some(Ch::E(s)) = d.ch.get_mut(k) { match self.r.n(3) { 0 => { s.set("stop-color", c); s.del("style"); } 1 => s.set("offset", if k == 0 { "0.013" } else { "0.987" }), _ => { if d.ch.len() > 2 { d.ch.remove(k); } } } } }
                    _ => {
                        let a = if linear { self.r.pick(&["x1", "y1", "x2", "y2"]) } else { self.r.pick(&["cx", "cy", "r", "fx", "fy"]) };
                        // a focal point stays near the centre
                        let v = match a {
                            "r" => if user { fmt(sc * 0.77) } else { "0.77".into() },
                            "fx" | "fy" => { let c = d.get(if a == "fx" { "cx" } else { "cy" }).unwrap_or("50%").to_string(); match c.strip_suffix('%') { Some(p) => format!("{}%", fmt(p.parse::<f64>().unwrap_or(50.0) + 3.0)), None => fmt(c.parse::<f64>().unwrap_or(0.5) + if user { 0.03 * sc } else { 0.03 }) } }
                            _ => g(self),
                        };
                        let moved = matches!(a, "cx" | "cy") && (d.has("fx") || d.has("fy"));
                        if !moved { d.set(a, v); }
                    }
                }
            }
            if linear { self.lin.push(j); } else { self.rad.push(j); }
            self.defs.push(d);
        }
        self.defs.push(e);
    }

    pub fn sub<T>(&mut self, f: impl FnOnce(&mut G) -> T) -> T {
        let save = self.p.clone();
        let nf = self.no_fx;
        self.no_fx = true;
        self.p.invisible = self.p.invisible / 3;
        self.p.link = 0;
        self.p.switch = 0;
        self.p.marker = 0;
        let r = f(self);
        self.p = save;
        self.no_fx = nf;
        r
    }

    pub fn clip_path(&mut self) {
        let mut e = El::new("clipPath");
        let i = self.id();
        e.set("id", i.clone());
        let obb = self.r.p(20);
        if obb { e.set("clipPathUnits", "objectBoundingBox"); } else if self.r.p(20) { e.set("clipPathUnits", "userSpaceOnUse"); }
        let n = 1 + self.r.n(2);
        self.sub(|g| {
            if obb { g.p.scale = 1.0; g.p.units = 0; g.p.decimals = 3; g.p.ts_any = 0; g.p.transform = 0; }
            for _ in 0..n {
                let mut s = g.shape();
                if s.name == "line" { s = El::new("rect"); s.set("width", fmt(g.p.scale * 0.6)); s.set("height", fmt(g.p.scale * 0.5)); }
                if g.r.p(25) { let v = g.r.pick(&["evenodd", "nonzero"]).to_string(); s.set("clip-rule", v); }
                if obb { s.del("transform"); }
                e.push(s);
            }
            if g.r.p(15) && !obb { let l = g.usable.clone(); if let Some(u) = g.pick_str(&l) { let mut s = El::new("use"); s.set("xlink:href", format!("#{}", u)); e.push(s); } }
        });
        if self.r.p(15) { let v = self.transform(); e.set("transform", v); }
        if self.r.p(15) { let l = self.clips.clone(); if let Some(c) = self.pick_str(&l) { e.set("clip-path", format!("url(#{})", c)); } }
        self.clips.push(i);
        self.defs.push(e);
    }

    pub fn mask_el(&mut self) {
        let mut e = El::new("mask");
        let i = self.id();
        e.set("id", i.clone());
        let sc = self.p.scale;
        match self.r.n(3) {
            0 => { e.set("maskUnits", "userSpaceOnUse"); for (a, lo, hi) in [("x", 0.0, sc * 0.3), ("y", 0.0, sc * 0.3), ("width", sc * 0.4, sc), ("height", sc * 0.4, sc)] { let v = self.ns(lo, hi); e.set(a, v); } }
            1 => { for (a, v) in [("x", "-10%"), ("y", "-10%"), ("width", "120%"), ("height", "120%")] { if self.r.p(50) { e.set(a, v); } } }
            _ => { if self.r.p(50) { e.set("maskUnits", "objectBoundingBox"); } }
        }
        let obb = self.r.p(15);
        if obb { e.set("maskContentUnits", "objectBoundingBox"); }
        let n = 1 + self.r.n(2);
        self.sub(|g| {
            if obb { g.p.scale = 1.0; g.p.units = 0; g.p.decimals = 3; g.p.transform = 0; g.p.grad = 0; }
            for _ in 0..n {
                let mut s = g.shape();
                if g.r.p(70) && !s.has("style") { s.set("fill", "white"); }
                e.push(s);
            }
        });
        self.masks.push(i);
        self.defs.push(e);
    }

    pub fn pattern_el(&mut self) {
        let mut e = El::new("pattern");
        let i = self.id();
        e.set("id", i.clone());
        let sc = self.p.scale;
        let user = self.r.p(65);
        if user { e.set("patternUnits", "userSpaceOnUse"); for (a, lo, hi) in [("x", 0.0, sc * 0.2), ("y", 0.0, sc * 0.2), ("width", sc * 0.1, sc * 0.4), ("height", sc * 0.1, sc * 0.4)] { let v = self.ns(lo, hi); e.set(a, v); } }
        else { for (a, v) in [("x", "0"), ("y", "10%"), ("width", ".25"), ("height", "25%")] { e.set(a, v); } }
        if self.r.p(15) { e.set("patternContentUnits", "userSpaceOnUse"); }
        if self.r.p(20) { e.set("viewBox", format!("0 0 {} {}", fmt(sc * 0.3), fmt(sc * 0.3))); }
        if self.r.p(25) { let v = self.transform(); if !identity(Some(&v)) { e.set("patternTransform", v); } }
        let pats = self.pat.clone();
        let href = self.r.p(20) && !pats.is_empty();
        if href { let t = self.pick_str(&pats).unwrap(); e.set("xlink:href", format!("#{}", t)); }
        if !href || self.r.p(40) {
            let n = 1 + self.r.n(2);
            self.sub(|g| { g.p.scale = sc * 0.35; g.p.pattern = 0; for _ in 0..n { let s = g.shape(); e.push(s); } });
        }
        self.pat.push(i);
        self.defs.push(e);
    }

    pub fn marker_el(&mut self) {
        let mut e = El::new("marker");
        let i = self.id();
        e.set("id", i.clone());
        for (a, v) in [("markerWidth", "4"), ("markerHeight", "5"), ("refX", "1"), ("refY", "2")] { if self.r.p(60) { e.set(a, v); } }
        if self.r.p(60) { let v = self.r.pick(&["auto", "45", "0", "auto"]).to_string(); e.set("orient", v); }
        if self.r.p(30) { let v = self.r.pick(&["strokeWidth", "userSpaceOnUse"]).to_string(); e.set("markerUnits", v); }
        if self.r.p(30) { e.set("viewBox", "0 0 8 8"); }
        if self.r.p(30) { let v = self.r.pick(&["visible", "hidden"]).to_string(); e.set("overflow", v); }
        if self.r.p(15) { e.set("preserveAspectRatio", "none"); }
        self.sub(|g| { g.p.scale = 6.0; g.p.stroke = g.p.stroke / 3; let n = 1 + g.r.n(2); for _ in 0..n { let s = g.shape(); e.push(s); } });
        if self.r.p(20) { let c = self.color(); e.set("fill", c); }
        self.markers.push(i);
        self.defs.push(e);
    }

    /// Filters with a single blur that differ in nothing or in one thing.
    fn blur_family(&mut self) {
        let std = self.r.pick(&["2", "1.5 3", "0"]).to_string();
        let n = 2 + self.r.n(2);
        let both = self.r.p(25);
        for _ in 0..n {
            let i = self.id();
            let mut e = El::new("filter");
            e.set("id", i.clone());
            let mut f = El::new("feGaussianBlur");
            f.set("stdDeviation", std.clone());
            if both { e.set("x", "-.2"); e.set("width", "1.5"); f.set("width", "44"); }
            let mut more = false;
            if self.r.p(70) {
                let (on, a, v) = self.r.pickv(&[(0, "x", "-.3"), (0, "y", "-.31"), (0, "width", "1.9"), (0, "height", "1.8"), (0, "filterUnits", "userSpaceOnUse"), (0, "primitiveUnits", "objectBoundingBox"),
                    (0, "filterRes", "77"), (0, "color-interpolation-filters", "sRGB"), (1, "color-interpolation-filters", "sRGB"), (1, "stdDeviation", "3.25"), (1, "stdDeviation", "1.5 1"), (1, "result", "zz"),
                    (1, "in", "SourceAlpha"), (1, "x", "1.5"), (1, "y", "2.5"), (1, "width", "33"), (1, "height", "34"), (2, "", "")]);
                match on { 0 => e.set(a, v), 1 => f.set(a, v), _ => more = true }
            }
            e.push(f);
            if more { let mut o = El::new("feOffset"); o.set("dx", "4"); e.push(o); }
            self.filters.push(i);
            self.defs.push(e);
        }
    }

    pub fn filter_el(&mut self) {
        if self.r.p(12) { return self.blur_family(); }
        let mut e = El::new("filter");
        let i = self.id();
        e.set("id", i.clone());
        if self.r.p(40) { for (a, v) in [("x", "-.2"), ("y", "-20%"), ("width", "1.5"), ("height", "150%")] { if self.r.p(60) { e.set(a, v); } } }
        if self.r.p(15) { for (a, v) in [("x", "-5"), ("y", "-6"), ("width", "150"), ("height", "130")] { e.set(a, v); } e.set("filterUnits", "userSpaceOnUse"); }
        if self.r.p(10) { e.set("color-interpolation-filters", "sRGB"); }
        let mut n = 1 + self.r.n(3);
        if self.r.p(3) { n = 0; }
        if self.r.p(6) && !self.filters.is_empty() {
            let l = { let k = self.r.n(self.filters.len()); self.filters[k].clone() };
            e.set("xlink:href", format!("#{}", l));
            if self.r.p(50) { n = 0; }
        }
        for k in 0..n {
            let mut f = match if self.r.p(12) { 12 + self.r.n(6) } else { self.r.n(12) } {
                12 => El::new("feTile"),
                13 => { let mut f = El::new("feConvolveMatrix"); f.set("kernelMatrix", "1 0 0 0 1 0 0 0 1"); if self.r.p(50) { f.set("order", "3"); } if self.r.p(50) { let v = self.r.pick(&["wrap", "none", "duplicate"]).to_string(); f.set("edgeMode", v); } if self.r.p(30) { f.set("preserveAlpha", "true"); } f }
                14 => { let mut f = El::new("feDisplacementMap"); f.set("in2", "SourceGraphic"); f.set("scale", "5"); if self.r.p(50) { f.set("xChannelSelector", "R"); } f }
                15 | 16 => {
                    let mut f = El::new(if self.r.p(50) { "feDiffuseLighting" } else { "feSpecularLighting" });
                    if self.r.p(60) { let c = self.color(); f.set("lighting-color", c); }
                    if self.r.p(50) { f.set("surfaceScale", "2.5"); }
                    let mut l = El::new(&self.r.pick(&["feDistantLight", "fePointLight", "feSpotLight"]).to_string());
                    if l.name == "feDistantLight" { l.set("azimuth", "30"); l.set("elevation", "40"); } else { l.set("x", "3"); l.set("y", "4"); l.set("z", "5"); }
                    f.push(l); f
                }
                17 => {
                    let mut f = El::new("feImage");
                    if self.r.p(50) { f.set("xlink:href", "img.png"); } else { let i = self.id(); let mut s = self.shape(); s.set("id", i.clone()); self.defs.push(s); f.set("xlink:href", format!("#{}", i)); }
                    f
                }
                0 | 1 | 2 => { let mut f = El::new("feGaussianBlur"); let a = self.n(0.0, 5.0); let b = self.n(0.0, 5.0); f.set("stdDeviation", if self.r.p(60) { fmt(a) } else { format!("{} {}", fmt(a), fmt(b)) }); f }
                3 => { let mut f = El::new("feOffset"); if self.r.p(80) { let v = self.ns(-5.0, 5.0); f.set("dx", v); } if self.r.p(80) { let v = self.ns(-5.0, 5.0); f.set("dy", v); } f }
                4 => { let mut f = El::new("feFlood"); let c = self.color(); f.set("flood-color", c); if self.r.p(60) { let v = self.opac(); f.set("flood-opacity", v); } f }
                5 => { let mut f = El::new("feColorMatrix"); match self.r.n(4) { 0 => { f.set("type", "saturate"); f.set("values", ".3"); } 1 => { f.set("type", "hueRotate"); f.set("values", "90"); } 2 => { f.set("type", "luminanceToAlpha"); } _ => { f.set("values", "0 0 0 0 0  0 1 0 0 0  0 0 1 0 0  0 0 0 .5 0"); if self.r.p(50) { f.set("type", "matrix"); } } } f }
                6 => { let mut f = El::new("feComposite"); f.set("in2", "SourceGraphic"); let v = self.r.pick(&["over", "in", "out", "atop", "xor"]).to_string(); f.set("operator", v); if self.r.p(20) { f.set("operator", "arithmetic"); f.set("k2", ".5"); f.set("k3", "1"); } f }
                7 => { let mut f = El::new("feBlend"); f.set("in2", "SourceGraphic"); if self.r.p(80) { let v = self.r.pick(&["normal", "multiply", "screen"]).to_string(); f.set("mode", v); } f }
                8 => { let mut f = El::new("feComponentTransfer"); for c in ["feFuncR", "feFuncA"] { let mut q = El::new(c); match self.r.n(3) { 0 => { q.set("type", "linear"); q.set("slope", ".5"); if self.r.p(50) { q.set("intercept", ".1"); } } 1 => { q.set("type", "table"); q.set("tableValues", "0 .5 1"); } _ => { q.set("type", "gamma"); q.set("amplitude", "2"); q.set("exponent", ".7"); } } f.push(q); } f }
                9 => { let mut f = El::new("feMerge"); for s in ["SourceAlpha", "SourceGraphic"] { let mut q = El::new("feMergeNode"); q.set("in", s); f.push(q); } f }
                10 => { let mut f = El::new("feMorphology"); let v = self.r.pick(&["erode", "dilate"]).to_string(); f.set("operator", v); f.set("radius", "1.5"); f }
                _ => { let mut f = El::new("feTurbulence"); f.set("baseFrequency", ".05"); f.set("numOctaves", "2"); if self.r.p(50) { f.set("type", "fractalNoise"); } f }
            };
            if self.r.p(40) { let v = self.r.pick(&["SourceGraphic", "SourceAlpha"]).to_string(); if !matches!(f.name.as_str(), "feFlood" | "feTurbulence" | "feMerge" | "feImage") { f.set("in", v); } }
            if self.r.p(30) { f.set("result", format!("r{}", k)); }
            if self.r.p(20) && k > 0 && !matches!(f.name.as_str(), "feFlood" | "feTurbulence" | "feMerge") { f.set("in", format!("r{}", k - 1)); if let Some(Ch::E(p)) = e.ch.last_mut() { p.set("result", format!("r{}", k - 1)); } }
            if self.r.p(10) { for a in ["x", "y", "width", "height"] { if self.r.p(50) { let v = self.r.pick(&["0", "1", "10%", "50", "0%", "100%", "-5"]).to_string(); if !v.starts_with('-') || a == "x" || a == "y" { f.set(a, v); } } } }
            if self.r.p(10) { f.set("color-interpolation-filters", "sRGB"); }
            e.push(f);
        }
        if self.r.p(self.p.dup) {
            let mut d = e.clone();
            let j = self.id();
            d.set("id", j.clone());
            if self.r.p(50) { // near-duplicate: one thing is different
                let (a, v) = match self.r.n(3) {
                    0 => *["x=-.3", "y=-.31", "width=1.9", "height=1.8", "filterUnits=userSpaceOnUse", "primitiveUnits=objectBoundingBox", "filterRes=77", "color-interpolation-filters=sRGB"].get(self.r.n(8)).unwrap(),
                    1 => *["stdDeviation=3.25", "result=zz", "in=SourceAlpha", "x=1.5", "y=2.5", "width=33", "height=44", "color-interpolation-filters=sRGB"].get(self.r.n(8)).unwrap(),
                    _ => *["stdDeviation=3.25", "stdDeviation=0", "stdDeviation=3.25 1"].get(self.r.n(3)).unwrap(),
                }.split_once('=').unwrap();
                let on_filter = !matches!(a, "stdDeviation" | "result" | "in" | "x" | "y" | "width" | "height") || v.starts_with('-') || v.starts_with("1.9") || v.starts_with("1.8");
                if on_filter && !(a.starts_with("color") && self.r.p(50)) { d.set(a, v); } else if let Some(Ch::E(q)) = d.ch.first_mut() { if a != "in" || !matches!(q.name.as_str(), "feFlood" | "feTurbulence" | "feMerge") { q.set(a, v); } }
            }
            self.filters.push(j);
            self.defs.push(d);
        }
        self.filters.push(i);
        self.defs.push(e);
    }

    pub fn symbol_el(&mut self) {
        let mut e = El::new("symbol");
        let i = self.id();
        e.set("id", i.clone());
        if self.r.p(60) { let s = self.p.scale; e.set("viewBox", format!("0 0 {} {}", fmt(s), fmt(s * 0.8))); }
        if self.r.p(20) { let v = self.r.pick(&["none", "xMinYMin slice", "xMaxYMid meet"]).to_string(); e.set("preserveAspectRatio", v); }
        if self.r.p(20) { e.set("overflow", "visible"); }
        let n = 1 + self.r.n(3);
        self.sub(|g| for _ in 0..n { let s = g.shape(); e.push(s); });
        self.symbols.push(i);
        self.defs.push(e);
    }

    pub fn use_el(&mut self) -> Option<El> {
        let mut e = El::new("use");
        let syms = self.symbols.clone();
        let us = self.usable.clone();
        let sym = self.r.p(if us.is_empty() { 100 } else { 40 }) && !syms.is_empty();
        let t = if sym { self.pick_str(&syms)? } else { self.pick_str(&us)? };
        e.set("xlink:href", format!("#{}", t));
        if self.r.p(50) { let v = self.ns(-20.0, 30.0); e.set("x", v); }
        if self.r.p(50) { let v = self.ns(-20.0, 30.0); e.set("y", v); }
        if sym || self.r.p(15) {
            let s = self.p.scale;
            for a in ["width", "height"] { if self.r.p(20) { e.set(a, "100%"); } else if self.r.p(90) { let v = self.ns(s * 0.2, s); e.set(a, v); } }
        }
        self.style(&mut e, true);
        if self.p.text > 0 && self.r.p(30) { self.text_style(&mut e); }
        self.restyle(&mut e);
        Some(e)
    }

    pub fn word(&mut self) -> String {
        self.r.pick(&["Text", "a", "Hello", "x", "long", "Ünï", "A&B", "1<2", "c>d", "\"q\"", "it's", "日本"]).to_string()
    }
    pub fn text_run(&mut self, first: bool) -> String {
        let mut s = String::new();
        if self.r.p(20) { s.push_str([" ", "  ", "\n   ", "\t"][self.r.n(4)]); }
        let n = 1 + self.r.n(3);
        for i in 0..n { if i > 0 { s.push_str([" ", "  ", " \n  ", "\t "][self.r.n(4)]); } let w = self.word(); s.push_str(&w); }
        if self.r.p(20) { s.push_str([" ", "  ", "\n "][self.r.n(3)]); }
        let _ = first;
        s
    }
    pub fn text_style(&mut self, e: &mut El) {
        if self.r.p(50) { let v = self.r.pick(&["12", "10px", "1.5em", "20", "150%", "9pt", "medium", "larger"]).to_string(); e.set("font-size", v); }
        if self.r.p(35) { let v = self.r.pick(&["Arial", "'Times New Roman', serif", "sans-serif", "Verdana"]).to_string(); e.set("font-family", v); }
        let k = self.p.textattrs;
        for (a, vs) in [("font-weight", &["bold", "normal", "300", "400", "bolder", "lighter"][..]), ("font-style", &["italic", "normal"]), ("font-variant", &["small-caps", "normal"]), ("text-anchor", &["middle", "end", "start"]),
            ("letter-spacing", &["1", "normal", "2px", "0", ".1em"]), ("word-spacing", &["3", "normal"]), ("text-decoration", &["underline", "none", "line-through"]),
            ("font-stretch", &["condensed", "normal", "wider"]), ("writing-mode", &["lr-tb", "tb"]), ("direction", &["rtl", "ltr"]), ("unicode-bidi", &["embed", "normal"]), ("baseline-shift", &["super", "baseline", "3"]),
            ("dominant-baseline", &["middle", "auto"]), ("alignment-baseline", &["middle", "auto"]), ("kerning", &["auto", "1"]), ("text-rendering", &["geometricPrecision", "auto"]), ("glyph-orientation-vertical", &["auto", "90"]),
            ("font-size-adjust", &["none", ".5"])] {
            if self.r.p(k) { let v = self.r.pick(vs).to_string(); e.set(a, v); }
        }
    }
    pub fn text_el(&mut self) -> El {
        let mut e = El::new("text");
        let sc = self.p.scale;
        if self.r.p(85) { let v = self.len(0.0, sc); e.set("x", v); }
        if self.r.p(85) { let v = self.len(0.0, sc); e.set("y", v); }
        if self.r.p(12) { let v = format!("{} {},{}", self.ns(0.0, 20.0), self.ns(20.0, 40.0), self.ns(40.0, 60.0)); e.set("x", v); }
        if self.r.p(10) { let v = self.ns(-3.0, 3.0); e.set("dx", v); }
        if self.r.p(10) { let v = format!("{} {}", self.ns(-3.0, 3.0), self.ns(-3.0, 3.0)); e.set("dy", v); }
        if self.r.p(10) { let v = format!("{} {}", self.ns(-30.0, 30.0), self.ns(-30.0, 30.0)); e.set("rotate", v); }
        if self.r.p(5) { e.set("textLength", "50"); if self.r.p(50) { e.set("lengthAdjust", "spacingAndGlyphs"); } }
        if self.r.p(12) { e.set("xml:space", if self.r.p(75) { "preserve" } else { "default" }); }
        self.text_style(&mut e);
        self.style(&mut e, true);
        e.del("marker-start"); e.del("marker-mid"); e.del("marker-end");
        let n = self.r.n(3);
        // svgdom processes text of an element only when it starts with a text (see known findings)
        if n > 0 || self.r.p(80) { let w = self.word(); let t = self.text_run(true); e.text(format!("{} {}", w, t)); }
        for _ in 0..n {
            let mut t = El::new(if self.r.p(self.p.link) { "a" } else { "tspan" });
            if t.name == "a" { t.set("xlink:href", "http://example.org/t"); }
            else {
                if self.r.p(30) { let v = self.len(0.0, sc); t.set("x", v); }
                if self.r.p(20) { let v = self.len(0.0, sc); t.set("y", v); }
                if self.r.p(20) { let v = self.ns(-3.0, 3.0); t.set("dx", v); }
                if self.r.p(20) { let v = self.ns(-3.0, 3.0); t.set("dy", v); }
                if self.r.p(8) { let v = self.ns(-30.0, 30.0); t.set("rotate", v); }
            }
            self.text_style(&mut t);
            if self.r.p(30) { let c = self.paint(); t.set("fill", c); }
            if self.r.p(10) { let c = self.color(); t.set("stroke", c); }
            if self.r.p(10) { t.set("fill-opacity", ".5"); }
            if self.r.p(self.p.invisible) { t.set("visibility", "hidden"); }
            self.restyle(&mut t);
            let s = self.text_run(false);
            t.text(s);
            if self.r.p(20) { let mut k = El::new("tspan"); self.text_style(&mut k); let s = self.text_run(false); k.text(s); t.push(k); if self.r.p(50) { let s = self.text_run(false); t.text(s); } }
            e.push(t);
            if self.r.p(60) { let s = self.text_run(false); e.text(s); }
        }
        if self.r.p(8) && !self.tpaths.is_empty() && !e.ch.is_empty() {
            let l = self.tpaths.clone();
            let i = self.pick_str(&l).unwrap();
            let mut t = El::new("textPath");
            t.set("xlink:href", format!("#{}", i));
            if self.r.p(50) { let v = self.len(0.0, 20.0); t.set("startOffset", v); }
            let s = self.text_run(false); t.text(s);
            e.push(t);
        }
        // (a space before it is lost: K5)
        if self.r.p(4) && !matches!(e.ch.last(), Some(Ch::T(t)) if t.ends_with(char::is_whitespace)) && !matches!(e.ch.last(), Some(Ch::E(_))) {
            let i = self.id();
            let mut q = El::new("text");
            q.set("id", i.clone());
            let w = self.word(); q.text(w);
            if self.r.p(50) { self.text_style(&mut q); }
            self.defs.push(q);
            let mut t = El::new("tref");
            t.set("xlink:href", format!("#{}", i));
            if self.r.p(30) { let c = self.paint(); t.set("fill", c); }
            e.push(t);
        }
        if self.r.p(self.p.ids) { let i = self.id(); e.set("id", i.clone()); if self.p.usee > 0 { self.usable.push(i); } }
        self.restyle(&mut e);
        e
    }

    /// A font of the document itself.
    fn font_el(&mut self) -> El {
        let mut f = El::new("font");
        if self.r.p(70) { let v = self.r.pick(&["1000", "0", "512"]).to_string(); f.set("horiz-adv-x", v); }
        if self.r.p(20) { f.set("horiz-origin-x", "0"); }
        if self.r.p(20) { f.set("id", "font0"); }
        if self.r.p(15) { let c = self.color(); f.set("fill", c); }
        let mut face = El::new("font-face");
        let v = self.r.pick(&["Own", "Own Font", "serif"]).to_string(); face.set("font-family", v);
        for (a, v) in &[("units-per-em", "1000"), ("units-per-em", "2048"), ("ascent", "0"), ("descent", "-200"), ("alphabetic", "0"), ("slope", "0"), ("slope", "1"), ("cap-height", "600"), ("x-height", "0"), ("panose-1", "2 11 6 4 2 2 2 2 2 4"),
            ("unicode-range", "U+0020-007F"), ("bbox", "0 0 10 20"), ("underline-position", "0"), ("hanging", "0"), ("stemv", "80"), ("font-weight", "bold"), ("font-style", "italic"), ("font-stretch", "normal")] {
            if self.r.p(15) { face.set(a, *v); }
        }
        let uses_src = self.r.p(15);
        if uses_src {
            let mut src = El::new("font-face-src");
            if self.r.p(60) { let mut u = El::new("font-face-uri"); u.set("xlink:href", "fonts.svg#own"); if self.r.p(40) { let mut m = El::new("font-face-format"); m.set("string", "svg"); u.push(m); } src.push(u); }
            if self.r.p(60) { let mut u = El::new("font-face-name"); u.set("name", "Other"); src.push(u); }
            face.push(src);
            if self.r.p(60) { return face; }
        }
        f.push(face);
        if self.r.p(60) { let mut m = El::new("missing-glyph"); if self.r.p(60) { let d = self.path(); m.set("d", d); } f.push(m); }
        for u in ["A", "b", "fi", " ", "\u{e9}", "c"].iter() {
            if !self.r.p(35) { continue; }
            let mut g = El::new("glyph");
            g.set("unicode", *u);
            if self.r.p(30) { g.set("glyph-name", "g1"); }
            if self.r.p(40) { g.set("horiz-adv-x", if u.len() == 1 { "0" } else { "300" }); }
            if self.r.p(10) { g.set("orientation", "h"); }
            if self.r.p(70) { let d = self.path(); g.set("d", d); } else if self.r.p(50) { let x = self.geom(); g.push(x); }
            f.push(g);
        }
        if self.r.p(40) { let mut k = El::new("hkern"); k.set("u1", "A"); k.set("g2", "g1"); let v = self.r.pick(&["0", "-20", "35.5"]).to_string(); k.set("k", v); f.push(k); }
        f
    }
    fn view_el(&mut self) -> El {
        let mut e = El::new(if self.r.p(70) { "view" } else { "color-profile" });
        if e.name == "view" {
            if self.r.p(50) { e.set("id", "view0"); }
            if self.r.p(70) { e.set("viewBox", "0 0 10.5 20"); }
            if self.r.p(30) { let v = self.r.pick(&["none", "xMidYMid meet", "xMinYMin"]).to_string(); e.set("preserveAspectRatio", v); }
            if self.r.p(20) { e.set("zoomAndPan", "disable"); }
        } else { e.set("name", "profile"); e.set("local", "sRGB"); if self.r.p(40) { let v = self.r.pick(&["auto", "perceptual"]).to_string(); e.set("rendering-intent", v); } }
        e
    }

    pub fn image_el(&mut self) -> El {
        let mut e = El::new("image");
        let sc = self.p.scale;
        for a in ["x", "y"] { if self.r.p(80) { let v = self.len(0.0, sc); e.set(a, v); } }
        for a in ["width", "height"] { let v = if self.r.p(8) { "100%".into() } else { self.len(1.0, sc) }; e.set(a, v); }
        if self.r.p(12) {
            e.name = "foreignObject".into();
            if self.r.p(60) { let mut h = El::new("p"); h.set("xmlns", "http://www.w3.org/1999/xhtml"); h.text("html"); e.push(h); }
            self.style(&mut e, true);
            return e;
        }
        let v = self.r.pick(&["data:image/png;base64,iVBORw0KGgo=", "image.png", "pics/a%20b.jpg", "http://example.org/i.png?a=1&b=2"]).to_string();
        e.set("xlink:href", v);
        if self.r.p(30) { let v = self.r.pick(&["none", "xMidYMid", "xMinYMax slice", "xMidYMid meet"]).to_string(); e.set("preserveAspectRatio", v); }
        if self.r.p(15) { e.set("image-rendering", "optimizeSpeed"); }
        self.style(&mut e, true);
        e
    }

    pub fn body(&mut self, depth: usize) -> El {
        if depth < self.p.depth && self.r.p(self.p.group) {
            let link = self.r.p(self.p.link);
            let sw = !link && self.r.p(self.p.switch);
            let mut e = El::new(if link { "a" } else if sw { "switch" } else { "g" });
            if link { let v = self.r.pick(&["http://example.org/", "page.svg#top", "page.svg?x=1&y=2", "javascript.html"]).to_string(); e.set("xlink:href", v); }
            if link && self.r.p(35) {
                // a link inside of the document
                let mut l = self.usable.clone(); l.extend(self.filters.iter().cloned()); l.extend(self.clips.iter().cloned()); l.extend(self.lin.iter().cloned()); l.extend(self.masks.iter().cloned());
                if !l.is_empty() { let k = self.r.n(l.len()); e.set("xlink:href", format!("#{}", l[k])); }
            }
            self.style(&mut e, true);
            if self.p.text > 0 && self.r.p(30) { self.text_style(&mut e); }
            let n = self.r.n(4) + if self.r.p(85) { 1 } else { 0 };
            for _ in 0..n { let c = self.body(depth + 1); e.push(c); }
            if self.r.p(self.p.ids) {
                let i = self.id();
                e.set("id", i.clone());
                if !sw { self.usable.push(i); }
            }
            self.restyle(&mut e);
            if !sw { self.junk(&mut e); }
            return e;
        }
        if self.r.p(self.p.text) { return self.text_el(); }
        if self.r.p(self.p.image) { return self.image_el(); }
        if self.r.p(self.p.usee) { if let Some(e) = self.use_el() { return e; } }
        if depth < self.p.depth && self.r.p(self.p.nested) {
            let mut e = El::new("svg");
            let sc = self.p.scale;
            for a in ["x", "y"] { if self.r.p(60) { let v = self.ns(0.0, sc * 0.3); e.set(a, v); } }
            for a in ["width", "height"] { if self.r.p(70) { let v = self.ns(sc * 0.3, sc); e.set(a, v); } }
            if self.r.p(50) { e.set("viewBox", format!("0 0 {} {}", fmt(sc * 0.8), fmt(sc * 1.1))); }
            if self.r.p(20) { let v = self.r.pick(&["none", "xMinYMin slice", "xMaxYMax meet"]).to_string(); e.set("preserveAspectRatio", v); }
            if self.r.p(25) { let v = self.r.pick(&["visible", "hidden"]).to_string(); e.set("overflow", v); }
            self.style(&mut e, true);
            e.del("transform");
            let n = 1 + self.r.n(3);
            for _ in 0..n { let c = self.body(depth + 1); e.push(c); }
            if self.p.usee > 0 && self.r.p(30) { let i = self.id(); e.set("id", i.clone()); self.usable.push(i); }
            return e;
        }
        self.shape()
    }

    pub fn junk(&mut self, e: &mut El) {
        if self.r.p(self.p.junk) {
            let s = self.r.pick(&["<!-- a comment -->", "<title>A title</title>", "<desc>Some <!-- x --> description</desc>", "<metadata><rdf:RDF><cc:Work rdf:about=\"\"/></rdf:RDF></metadata>",
                "<sodipodi:namedview id=\"base\" pagecolor=\"#ffffff\"><inkscape:grid type=\"xygrid\"/></sodipodi:namedview>", "<?pi data?>", "<!--\n multi\n line -->"]).to_string();
            let k = self.r.n(e.ch.len() + 1);
            e.ch.insert(k, Ch::Raw(s));
        }
    }

    /// Complete document.
    pub fn document(&mut self) -> El {
        let p = self.p.clone();
        let mut root = El::new("svg");
        root.set("xmlns", "http://www.w3.org/2000/svg");
        root.set("xmlns:xlink", "http://www.w3.org/1999/xlink");
        if p.junk > 0 {
            root.set("xmlns:inkscape", "http://www.inkscape.org/namespaces/inkscape");
            root.set("xmlns:sodipodi", "http://sodipodi.sourceforge.net/DTD/sodipodi-0.dtd");
            root.set("xmlns:rdf", "http://www.w3.org/1999/02/22-rdf-syntax-ns#");
            root.set("xmlns:cc", "http://web.resource.org/cc/");
        }
        if self.r.p(40) { root.set("version", "1.1"); }
        match self.r.n(4) {
            0 => {}
            1 => { root.set("viewBox", format!("0 0 {} {}", fmt(p.scale * 1.2), fmt(p.scale))); }
            _ => { root.set("width", fmt(p.scale * 1.5)); root.set("height", fmt(p.scale * 1.4)); if self.r.p(60) { root.set("viewBox", format!("0 0 {} {}", fmt(p.scale), fmt(p.scale))); } if self.r.p(15) { root.set("preserveAspectRatio", "xMinYMid slice"); } }
        }
        if self.r.p(p.gstyle / 2) {
            let mut t = El::new("g");
            let save = (self.p.transform, self.p.clip, self.p.mask, self.p.filter, self.p.marker);
            self.p.transform = 0; self.p.clip = 0; self.p.mask = 0; self.p.filter = 0; self.p.marker = 0;
            self.style(&mut t, true);
            self.p.transform = save.0; self.p.clip = save.1; self.p.mask = save.2; self.p.filter = save.3; self.p.marker = save.4;
            for (k, v) in t.at { root.set(&k, v); }
            root.del("display");
        }
        if p.text > 0 && p.usee > 0 {
            // texts reusable by <use>, and groups of uses of them
            self.no_fx = true;
            for _ in 0..self.r.n(3) {
                let mut e = self.text_el();
                e.del("display"); e.del("visibility");
                let i = self.id();
                e.set("id", i.clone());
                self.usable.push(i);
                self.defs.push(e);
            }
            if !self.usable.is_empty() && self.r.p(40) {
                let mut g = El::new("g");
                let gi = self.id();
                g.set("id", gi.clone());
                for _ in 0..1 + self.r.n(2) { if let Some(e) = self.use_el() { g.push(e); } }
                if self.r.p(30) { let s = self.shape(); g.push(s); }
                self.usable.push(gi);
                self.defs.push(g);
            }
            self.no_fx = false;
        }
        // shapes reusable by <use>
        if p.usee > 0 || p.clip > 0 {
            self.no_fx = true;
            for _ in 0..1 + self.r.n(2) {
                let mut e = self.geom();
                self.style(&mut e, false);
                e.del("display");
                if e.get("visibility").map_or(false, |v| v != "visible") { e.del("visibility"); }
                let i = self.id();
                e.set("id", i.clone());
                self.restyle(&mut e);
                if self.r.p(40) && p.usee > 0 {
                    let mut g = El::new("g");
                    self.style(&mut g, true);
                    g.del("display");
                    let gi = self.id();
                    g.set("id", gi.clone());
                    g.push(e);
                    if self.r.p(50) { let s = self.shape(); g.push(s); }
                    if self.r.p(25) { if let Some(u) = self.use_el() { g.push(u); } }
                    self.usable.push(gi);
                    self.defs.push(g);
                } else {
                    self.usable.push(i);
                    self.defs.push(e);
                }
            }
            self.no_fx = false;
        }
        if p.text > 0 && self.r.p(40) { let mut e = El::new("path"); let d = self.path(); e.set("d", d); let i = self.id(); e.set("id", i.clone()); self.tpaths.push(i); self.defs.push(e); }
        if p.grad > 0 { for _ in 0..1 + self.r.n(p.grads.max(1)) { self.gradient(); } }
        if p.pattern > 0 { for _ in 0..1 + self.r.n(2) { self.pattern_el(); } }
        if p.clip > 0 { for _ in 0..1 + self.r.n(2) { self.clip_path(); } }
        if p.mask > 0 { for _ in 0..1 + self.r.n(2) { self.mask_el(); } }
        if p.marker > 0 { for _ in 0..1 + self.r.n(2) { self.marker_el(); } }
        if p.filter > 0 { for _ in 0..1 + self.r.n(2) { self.filter_el(); } }
        if p.symbol > 0 { for _ in 0..1 + self.r.n(2) { self.symbol_el(); } }
        let n = 1 + self.r.n(p.elems.max(1));
        let mut body: Vec<El> = vec![];
        for _ in 0..n { let e = self.body(0); body.push(e); }
        // place definitions
        let mut defs = std::mem::take(&mut self.defs);
        // keep href order arbitrary
        if self.r.p(40) { for i in 0..defs.len() { let j = i + self.r.n(defs.len() - i); defs.swap(i, j); } }
        let mut in_defs = El::new("defs");
        let mut late = vec![];
        for d in defs {
            let inl = self.r.p(p.inline_defs) && !matches!(d.name.as_str(), "path" | "rect" | "circle" | "ellipse" | "line" | "polyline" | "polygon" | "g");
            if inl { let k = self.r.n(body.len() + 1); body.insert(k, d); } else if self.r.p(10) { late.push(d); } else { in_defs.push(d); }
        }
        if p.text > 0 && self.r.p(8) { let f = self.font_el(); if self.r.p(70) { in_defs.push(f); } else { body.push(f); } }
        if self.r.p(2) { let f = self.view_el(); if self.r.p(70) { in_defs.push(f); } else { body.push(f); } }
        self.junk(&mut in_defs);
        if !in_defs.ch.is_empty() || self.r.p(10) {
            if self.r.p(15) { let mut g = El::new("g"); if self.r.p(50) { self.style(&mut g, true); g.del("transform"); g.del("clip-path"); g.del("mask"); g.del("filter"); g.del("marker-start"); g.del("marker-mid"); g.del("marker-end"); } g.push(in_defs); root.push(g); } else { root.push(in_defs); }
        }
        for b in body { root.push(b); if self.r.p(3) { self.junk(&mut root); } }
        if !late.is_empty() { let mut d = El::new("defs"); for e in late { d.push(e); } root.push(d); }
        self.junk(&mut root);
        if p.junk > 0 {
            // non-rendered children of paint servers, effects, ...
            let (r, pc) = (&mut *self.r, p.junk);
            root.walk_mut(&mut |e| {
                let ok = matches!(e.name.as_str(), "linearGradient" | "radialGradient" | "clipPath" | "mask" | "pattern" | "marker" | "symbol" | "filter" | "path" | "rect" | "use" | "image");
                if ok && r.p(pc / 3) {
                    let s = r.pick(&["<!-- a comment -->", "<title>A title</title>", "<desc>description</desc>", "<!-- c1 --><!-- c2 -->"]).to_string();
                    let k = r.n(e.ch.len() + 1);
                    e.ch.insert(k, Ch::Raw(s));
                }
            });
        }
        if self.r.p(p.clip / 4) { let l = self.clips.clone(); if let Some(i) = self.pick_str(&l) { root.set("clip-path", format!("url(#{})", i)); } }
        if self.r.p(p.mask / 4) { let l = self.masks.clone(); if let Some(i) = self.pick_str(&l) { root.set("mask", format!("url(#{})", i)); } }
        if self.r.p(p.filter / 4) { let l = self.filters.clone(); if let Some(i) = self.pick_str(&l) { root.set("filter", format!("url(#{})", i)); } }
        if self.r.p(p.invisible / 10) { root.set("display", "none"); }
        fix_inherit(&mut root, &mut vec![]);
        if p.current > 0 && root.get("color").is_none() { let c = self.color(); root.set("color", c); }
        if self.r.p(p.css) { self.add_css(&mut root); }
        root
    }

    /// Moves some presentation attributes into a style sheet; keeps rule order == specificity order.
    pub fn add_css(&mut self, root: &mut El) {
        let mut rules: Vec<(u8, String)> = vec![];
        let props = crate::style::PROPS;
        let mut k = 0;
        let mut idx = vec![];
        let mut cnt = 0;
        root.walk_mut(&mut |e| { let _ = &e; cnt += 1; });
        for i in 0..cnt { if self.r.p(35) { idx.push(i); } }
        let mut c = 0;
        let mut plan: Vec<(usize, usize)> = vec![];
        for i in &idx { plan.push((*i, self.r.n(10))); }
        let rr = &mut *self.r;
        root.walk_mut(&mut |e| {
            let me = c;
            c += 1;
            let mode = match plan.iter().find(|p| p.0 == me) { Some(p) => p.1, None => return };
            if matches!(e.name.as_str(), "style" | "defs" | "font-face") || e.name.contains(':') { return; }
            let mut decl = String::new();
            let at = std::mem::take(&mut e.at);
            for (kk, v) in at {
                if props.iter().any(|p| p.0 == kk) && !v.contains('"') && v != "inherit" && rr.p(85) { decl.push_str(&format!("{}{}:{}{};{}", ["", " ", "\n  "][rr.n(3)], kk, ["", " "][rr.n(2)], v, ["", " "][rr.n(2)])); }
                else { e.at.push((kk, v)); }
            }
            if decl.is_empty() { return; }
            k += 1;
            if mode < 3 && e.get("id").map_or(false, |i| !i.contains('.')) {
                rules.push((2, format!("#{}{}{{{}}}", e.get("id").unwrap().replace('.', "\\."), ["", " "][rr.n(2)], decl)));
            } else {
                let cl = format!("{}{}", ["cls-", "st", "fil"][k % 3], k);
                let old = e.get("class").map(|s| s.to_string());
                e.set("class", match old { Some(o) => format!("{} {}", o, cl), None => cl.clone() });
                let extra = if rr.p(15) { format!(", .other{}", k) } else { String::new() };
                rules.push((1, format!(".{}{}{}{{{}}}", cl, extra, ["", " "][rr.n(2)], decl)));
            }
        });
        if self.r.p(20) { rules.push((0, "path{stroke-linejoin:round}".into())); }
        if self.r.p(10) { rules.push((0, "rect, circle { stroke-width: 1.5 }".into())); }
        rules.sort_by_key(|r| r.0);
        if rules.is_empty() { return; }
        let mut s = String::new();
        for (_, r) in rules { s.push_str(&r); s.push_str(["", "\n", " "][self.r.n(3)]); if self.r.p(8) { s.push_str("/* c */"); } }
        let mut e = El::new("style");
        if self.r.p(70) { e.set("type", "text/css"); }
        if self.r.p(40) { e.ch.push(Ch::Raw(format!("<![CDATA[\n{}\n]]>", s))); } else { e.ch.push(Ch::T(s)); }
        let pos = if self.r.p(80) { 0 } else { root.ch.len() };
        if self.r.p(50) { let mut d = El::new("defs"); d.push(e); root.ch.insert(pos, Ch::E(d)); } else { root.ch.insert(pos, Ch::E(e)); }
    }
}

/// `inherit` is accepted only where an ancestor defines the property.
fn fix_inherit(e: &mut El, up: &mut Vec<String>) {
    let n = up.len();
    e.at.retain(|(k, v)| v != "inherit" || up.contains(k));
    for (k, v) in &mut e.at {
        if k == "style" {
            let d: Vec<String> = v.split(';').filter(|d| {
                match d.find(':') { Some(i) => d[i + 1..].trim() != "inherit" || up.iter().any(|u| u == d[..i].trim()), None => true }
            }).map(|s| s.to_string()).collect();
            *v = d.join(";");
        }
    }
    let mut own: Vec<String> = vec![];
    for (k, v) in &e.at {
        if k == "style" { for d in v.split(';') { if let Some(i) = d.find(':') { own.push(d[..i].trim().to_string()); } } } else { own.push(k.clone()); }
    }
    up.extend(own);
    for c in &mut e.ch { if let Ch::E(c) = c { fix_inherit(c, up); } }
    up.truncate(n);
}

pub fn esc_attr(s: &str, q: char) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c { '&' => o.push_str("&amp;"), '<' => o.push_str("&lt;"), '"' if q == '"' => o.push_str("&quot;"), '\'' if q == '\'' => o.push_str("&apos;"), c => o.push(c) }
    }
    o
}
pub fn esc_text(s: &str) -> String { s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;") }

/// Serialises with random lexical variation.
pub fn serialize(root: &El, r: &mut Rng, decl: bool) -> String {
    let mut s = String::new();
    if decl && r.p(50) { s.push_str(["<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n", "<?xml version='1.0'?>\n", "<?xml version=\"1.0\" encoding=\"utf-8\" standalone=\"no\"?>\n"][r.n(3)]); }
    if decl && r.p(15) { s.push_str("<!-- Generator: test -->\n"); }
    if decl && r.p(15) { s.push_str("<!DOCTYPE svg PUBLIC \"-//W3C//DTD SVG 1.1//EN\" \"http://www.w3.org/Graphics/SVG/1.1/DTD/svg11.dtd\">\n"); }
    let style = r.n(3);
    ser(root, r, 0, style, &mut s, false);
    if r.p(60) { s.push('\n'); }
    s
}

fn ser(e: &El, r: &mut Rng, depth: usize, style: usize, s: &mut String, intext: bool) {
    s.push('<');
    s.push_str(&e.name);
    for (k, v) in &e.at {
        s.push_str(if style == 2 && !intext { "\n   " } else { " " });
        let q = if r.p(12) && !v.contains('\'') { '\'' } else { '"' };
        s.push_str(k); s.push('='); s.push(q);
        s.push_str(&esc_attr(v, q));
        s.push(q);
    }
    if e.ch.is_empty() && r.p(90) { s.push_str("/>"); return; }
    s.push('>');
    let text = intext || matches!(e.name.as_str(), "text" | "tspan" | "textPath" | "tref" | "style" | "title" | "desc");
    for c in &e.ch {
        if !text && style > 0 { s.push('\n'); for _ in 0..=depth { s.push_str("  "); } }
        match c { Ch::E(k) => ser(k, r, depth + 1, style, s, text), Ch::T(t) => s.push_str(&esc_text(t)), Ch::Raw(t) => s.push_str(t) }
    }
    if !text && style > 0 && !e.ch.is_empty() { s.push('\n'); for _ in 0..depth { s.push_str("  "); } }
    s.push_str("</"); s.push_str(&e.name); s.push('>');
}
