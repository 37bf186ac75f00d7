//! Independent geometry: matrices, path data, flattening, point-in-fill and point-in-stroke.

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Mat { pub a: f64, pub b: f64, pub c: f64, pub d: f64, pub e: f64, pub f: f64 }

pub type Pt = (f64, f64);

impl Mat {
    pub const ID: Mat = Mat { a: 1.0, b: 0.0, c: 0.0, d: 1.0, e: 0.0, f: 0.0 };
    pub fn new(a: f64, b: f64, c: f64, d: f64, e: f64, f: f64) -> Mat { Mat { a, b, c, d, e, f } }
    pub fn tr(x: f64, y: f64) -> Mat { Mat::new(1.0, 0.0, 0.0, 1.0, x, y) }
    pub fn scale(x: f64, y: f64) -> Mat { Mat::new(x, 0.0, 0.0, y, 0.0, 0.0) }
    pub fn rot(deg: f64) -> Mat {
        let r = deg.to_radians();
        Mat::new(r.cos(), r.sin(), -r.sin(), r.cos(), 0.0, 0.0)
    }
    /// self * o : apply o first, then self
    pub fn mul(&self, o: &Mat) -> Mat {
        Mat {
            a: self.a * o.a + self.c * o.b,
            b: self.b * o.a + self.d * o.b,
            c: self.a * o.c + self.c * o.d,
            d: self.b * o.c + self.d * o.d,
            e: self.a * o.e + self.c * o.f + self.e,
            f: self.b * o.e + self.d * o.f + self.f,
        }
    }
    pub fn det(&self) -> f64 { self.a * self.d - self.b * self.c }
    pub fn inv(&self) -> Option<Mat> {
        let d = self.det();
        if !d.is_finite() || d.abs() < 1e-18 { return None; }
        Some(Mat {
            a: self.d / d, b: -self.b / d, c: -self.c / d, d: self.a / d,
            e: (self.c * self.f - self.d * self.e) / d,
            f: (self.b * self.e - self.a * self.f) / d,
        })
    }
    pub fn ap(&self, p: Pt) -> Pt { (self.a * p.0 + self.c * p.1 + self.e, self.b * p.0 + self.d * p.1 + self.f) }
    /// largest linear scale factor
    pub fn maxscale(&self) -> f64 {
        let s1 = self.a * self.a + self.b * self.b + self.c * self.c + self.d * self.d;
        let dt = self.det();
        let q = (s1 * s1 - 4.0 * dt * dt).max(0.0).sqrt();
        ((s1 + q) / 2.0).sqrt()
    }
    pub fn minscale(&self) -> f64 {
        let m = self.maxscale();
        if m == 0.0 { 0.0 } else { self.det().abs() / m }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Seg {
    M(Pt),
    L(Pt),
    C(Pt, Pt, Pt),
    Q(Pt, Pt),
    A { r: Pt, rot: f64, large: bool, sweep: bool, to: Pt },
    Z,
}

pub struct NumScan<'a> { pub b: &'a [u8], pub i: usize }
impl<'a> NumScan<'a> {
    pub fn new(s: &'a str) -> Self { NumScan { b: s.as_bytes(), i: 0 } }
    pub fn ws(&mut self) { while self.i < self.b.len() && matches!(self.b[self.i], b' ' | b'\t' | b'\n' | b'\r' | 0x0c) { self.i += 1 } }
    pub fn sep(&mut self) {
        self.ws();
        if self.i < self.b.len() && self.b[self.i] == b',' { self.i += 1; self.ws(); }
    }
    pub fn end(&mut self) -> bool { self.ws(); self.i >= self.b.len() }
    pub fn num(&mut self) -> Option<f64> {
        let st = self.i;
        let b = self.b;
        let mut i = st;
        if i < b.len() && (b[i] == b'+' || b[i] == b'-') { i += 1; }
        let ds = i;
        while i < b.len() && b[i].is_ascii_digit() { i += 1; }
        let mut nd = i - ds;
        if i < b.len() && b[i] == b'.' {
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_digit() { j += 1; }
            nd += j - i - 1;
            if j > i + 1 || nd > 0 { i = j; }
        }
        if nd == 0 { return None; }
        if i < b.len() && (b[i] == b'e' || b[i] == b'E') {
            let mut j = i + 1;
            if j < b.len() && (b[j] == b'+' || b[j] == b'-') { j += 1; }
            let es = j;
            while j < b.len() && b[j].is_ascii_digit() { j += 1; }
            if j > es { i = j; }
        }
        let t = std::str::from_utf8(&b[st..i]).ok()?;
        let t = t.strip_prefix('+').unwrap_or(t);
        self.i = i;
        t.parse().ok()
    }
    pub fn flag(&mut self) -> Option<bool> {
        let r = match self.b.get(self.i) { Some(b'0') => false, Some(b'1') => true, _ => return None };
        self.i += 1;
        Some(r)
    }
}

/// Parses path data into absolute segments. Err(segs parsed so far) on a data error.
pub fn parse_path(s: &str) -> Result<Vec<Seg>, Vec<Seg>> {
    let mut p = NumScan::new(s);
    let mut out: Vec<Seg> = Vec::new();
    let (mut x, mut y) = (0.0f64, 0.0f64);
    let (mut mx, mut my) = (0.0f64, 0.0f64);
    let mut lastc: Option<Pt> = None; // last cubic ctrl
    let mut lastq: Option<Pt> = None;
    let mut cmd = 0u8;
    p.ws();
    while p.i < p.b.len() {
        let ch = p.b[p.i];
        let explicit = ch.is_ascii_alphabetic();
        if explicit {
            cmd = ch;
            p.i += 1;
            p.ws();
        } else {
            if cmd == 0 || cmd == b'z' || cmd == b'Z' { return Err(out); }
            if cmd == b'M' { cmd = b'L' } else if cmd == b'm' { cmd = b'l' }
            
        }
        if out.is_empty() && cmd != b'M' && cmd != b'm' { return Err(out); }
        let rel = cmd.is_ascii_lowercase();
        let (ox, oy) = if rel { (x, y) } else { (0.0, 0.0) };
        macro_rules! n { () => { match p.num() { Some(v) => { p.sep(); v } None => return Err(out) } } }
        macro_rules! fl { () => { match p.flag() { Some(v) => { p.sep(); v } None => return Err(out) } } }
        let mut nc = None;
        let mut nq = None;
        match cmd.to_ascii_uppercase() {
            b'M' => { let a = n!(); let b = n!(); x = ox + a; y = oy + b; mx = x; my = y; out.push(Seg::M((x, y))); }
            b'L' => { let a = n!(); let b = n!(); x = ox + a; y = oy + b; out.push(Seg::L((x, y))); }
            b'H' => { let a = n!(); x = ox + a; out.push(Seg::L((x, y))); }
            b'V' => { let a = n!(); y = oy + a; out.push(Seg::L((x, y))); }
            b'C' => {
                let (a, b, c, d, e, f) = (n!(), n!(), n!(), n!(), n!(), n!());
                let c2 = (ox + c, oy + d);
                x = ox + e; y = oy + f;
                out.push(Seg::C((ox + a, oy + b), c2, (x, y)));
                nc = Some(c2);
            }
            b'S' => {
                let (c, d, e, f) = (n!(), n!(), n!(), n!());
                let c1 = match lastc { Some(l) => (2.0 * x - l.0, 2.0 * y - l.1), None => (x, y) };
                let c2 = (ox + c, oy + d);
                x = ox + e; y = oy + f;
                out.push(Seg::C(c1, c2, (x, y)));
                nc = Some(c2);
            }
            b'Q' => {
                let (a, b, e, f) = (n!(), n!(), n!(), n!());
                let c1 = (ox + a, oy + b);
                x = ox + e; y = oy + f;
                out.push(Seg::Q(c1, (x, y)));
                nq = Some(c1);
            }
            b'T' => {
                let (e, f) = (n!(), n!());
                let c1 = match lastq { Some(l) => (2.0 * x - l.0, 2.0 * y - l.1), None => (x, y) };
                x = ox + e; y = oy + f;
                out.push(Seg::Q(c1, (x, y)));
                nq = Some(c1);
            }
            b'A' => {
                let (rx, ry, rot) = (n!(), n!(), n!());
                let large = fl!();
                let sweep = fl!();
                let (e, f) = (n!(), n!());
                x = ox + e; y = oy + f;
                out.push(Seg::A { r: (rx.abs(), ry.abs()), rot, large, sweep, to: (x, y) });
            }
            b'Z' => { x = mx; y = my; out.push(Seg::Z); }
            _ => return Err(out),
        }
        lastc = nc;
        lastq = nq;
        p.ws();
    }
    Ok(out)
}

#[derive(Clone, Debug, Default)]
pub struct Sub {
    pub pts: Vec<Pt>,
    /// true where the vertex is a genuine path vertex (join drawn per linejoin), false: interior of a curve
    pub hard: Vec<bool>,
    pub closed: bool,
    /// start vertex was produced by continuing after Z
    pub zero_len: bool,
}

#[derive(Clone, Debug)]
pub struct Vertex { pub p: Pt, pub ang_in: Option<f64>, pub ang_out: Option<f64> }

#[derive(Clone, Debug, Default)]
pub struct Flat {
    pub subs: Vec<Sub>,
    pub bbox: Option<[f64; 4]>,
    pub verts: Vec<Vertex>,
}

fn ext(bb: &mut Option<[f64; 4]>, p: Pt) {
    match bb {
        None => *bb = Some([p.0, p.1, p.0, p.1]),
        Some(b) => {
            b[0] = b[0].min(p.0); b[1] = b[1].min(p.1); b[2] = b[2].max(p.0); b[3] = b[3].max(p.1);
        }
    }
}
pub fn union(a: Option<[f64; 4]>, b: Option<[f64; 4]>) -> Option<[f64; 4]> {
    match (a, b) {
        (None, x) | (x, None) => x,
        (Some(x), Some(y)) => Some([x[0].min(y[0]), x[1].min(y[1]), x[2].max(y[2]), x[3].max(y[3])]),
    }
}
pub fn map_bbox(b: [f64; 4], m: &Mat) -> [f64; 4] {
    let mut o = None;
    for &p in &[(b[0], b[1]), (b[2], b[1]), (b[2], b[3]), (b[0], b[3])] { ext(&mut o, m.ap(p)); }
    o.unwrap()
}

pub fn arc_to_cubics(p0: Pt, r: Pt, rot: f64, large: bool, sweep: bool, to: Pt) -> Vec<Seg> {
    if p0 == to { return vec![]; }
    let (mut rx, mut ry) = (r.0.abs(), r.1.abs());
    if rx == 0.0 || ry == 0.0 { return vec![Seg::L(to)]; }
    let phi = rot.to_radians();
    let (s, c) = phi.sin_cos();
    let dx = (p0.0 - to.0) / 2.0;
    let dy = (p0.1 - to.1) / 2.0;
    let x1 = c * dx + s * dy;
    let y1 = -s * dx + c * dy;
    let lam = x1 * x1 / (rx * rx) + y1 * y1 / (ry * ry);
    if lam > 1.0 { rx *= lam.sqrt(); ry *= lam.sqrt(); }
    let num = (rx * rx * ry * ry - rx * rx * y1 * y1 - ry * ry * x1 * x1).max(0.0);
    let den = rx * rx * y1 * y1 + ry * ry * x1 * x1;
    let mut k = if den == 0.0 { 0.0 } else { (num / den).sqrt() };
    if large == sweep { k = -k; }
    let cxp = k * rx * y1 / ry;
    let cyp = -k * ry * x1 / rx;
    let cx = c * cxp - s * cyp + (p0.0 + to.0) / 2.0;
    let cy = s * cxp + c * cyp + (p0.1 + to.1) / 2.0;
    let a1 = ((y1 - cyp) / ry).atan2((x1 - cxp) / rx);
    let a2 = ((-y1 - cyp) / ry).atan2((-x1 - cxp) / rx);
    let mut da = a2 - a1;
    if sweep && da < 0.0 { da += 2.0 * std::f64::consts::PI; }
    if !sweep && da > 0.0 { da -= 2.0 * std::f64::consts::PI; }
    let n = ((da.abs() / (std::f64::consts::PI / 8.0)).ceil() as usize).max(1);
    let step = da / n as f64;
    let t = 4.0 / 3.0 * (step / 4.0).tan();
    let pt = |a: f64| { let (sa, ca) = a.sin_cos(); (cx + c * rx * ca - s * ry * sa, cy + s * rx * ca + c * ry * sa) };
    let dv = |a: f64| { let (sa, ca) = a.sin_cos(); (-c * rx * sa - s * ry * ca, -s * rx * sa + c * ry * ca) };
    let mut out = vec![];
    for i in 0..n {
        let t1 = a1 + step * i as f64;
        let t2 = a1 + step * (i + 1) as f64;
        let q1 = pt(t1);
        let q2 = if i + 1 == n { to } else { pt(t2) };
        let d1 = dv(t1);
        let d2 = dv(t2);
        out.push(Seg::C((q1.0 + t * d1.0, q1.1 + t * d1.1), (q2.0 - t * d2.0, q2.1 - t * d2.1), q2));
    }
    out
}

fn cubic(p0: Pt, p1: Pt, p2: Pt, p3: Pt, t: f64) -> Pt {
    let u = 1.0 - t;
    let (a, b, c, d) = (u * u * u, 3.0 * u * u * t, 3.0 * u * t * t, t * t * t);
    (a * p0.0 + b * p1.0 + c * p2.0 + d * p3.0, a * p0.1 + b * p1.1 + c * p2.1 + d * p3.1)
}
pub fn dist(a: Pt, b: Pt) -> f64 { (a.0 - b.0).hypot(a.1 - b.1) }

/// Exact axis extents of a cubic along with the endpoints.
fn cubic_ext(bb: &mut Option<[f64; 4]>, p0: Pt, p1: Pt, p2: Pt, p3: Pt) {
    ext(bb, p0);
    ext(bb, p3);
    for ax in 0..2 {
        let g = |p: Pt| if ax == 0 { p.0 } else { p.1 };
        let (a0, a1, a2, a3) = (g(p0), g(p1), g(p2), g(p3));
        let a = -a0 + 3.0 * a1 - 3.0 * a2 + a3;
        let b = 2.0 * (a0 - 2.0 * a1 + a2);
        let c = a1 - a0;
        let mut ts = vec![];
        if a.abs() < 1e-12 { if b.abs() > 1e-12 { ts.push(-c / b); } }
        else {
            let d = b * b - 4.0 * a * c;
            if d >= 0.0 { ts.push((-b + d.sqrt()) / (2.0 * a)); ts.push((-b - d.sqrt()) / (2.0 * a)); }
        }
        for t in ts { if t > 0.0 && t < 1.0 { ext(bb, cubic(p0, p1, p2, p3, t)); } }
    }
}

fn on_chord(a: Pt, b: Pt, c: Pt) -> bool {
    let l = dist(a, b);
    l > 0.0 && ((b.0 - a.0) * (c.1 - a.1) - (b.1 - a.1) * (c.0 - a.0)).abs() / l < 1e-6 * (1.0 + l)
        && ((c.0 - a.0) * (b.0 - a.0) + (c.1 - a.1) * (b.1 - a.1)) / l > -1e-6
        && ((c.0 - b.0) * (b.0 - a.0) + (c.1 - b.1) * (b.1 - a.1)) / l < 1e-6
}

pub fn flatten(segs: &[Seg]) -> Flat {
    let mut f = Flat::default();
    let mut cur: Pt = (0.0, 0.0);
    let mut start: Pt = (0.0, 0.0);
    let mut sub: Option<Sub> = None;
    let mut sbb: Option<[f64; 4]> = None;
    // directions for markers
    let mut sub_first_vert = 0usize;
    fn dir(a: Pt, b: Pt) -> Option<f64> { if dist(a, b) < 1e-7 * (1.0 + a.0.abs() + a.1.abs()) { None } else { Some((b.1 - a.1).atan2(b.0 - a.0)) } }
    macro_rules! need_sub { () => {
        if sub.is_none() {
            sub = Some(Sub { pts: vec![cur], hard: vec![true], closed: false, zero_len: false });
            ext(&mut sbb, cur);
        }
    } }
    // A subpath whose last segment is a straight line back to its start is treated as closed:
    // the documented canonical form of such a subpath is `Z`.
    let mut last_line = false;
    // zero-extent subpaths do not take part in the bounding box (they are dropped by the documented canonical form)
    macro_rules! finish { () => { if let Some(mut s) = sub.take() {
        if let Some(b) = sbb.take() { if b[2] - b[0] > 1e-9 || b[3] - b[1] > 1e-9 { f.bbox = union(f.bbox, Some(b)); } }
        if last_line && !s.closed && s.pts.len() > 2 && dist(s.pts[0], *s.pts.last().unwrap()) < 1e-7 * (1.0 + s.pts[0].0.abs() + s.pts[0].1.abs()) { s.closed = true; }
        f.subs.push(s);
    } } }
    for s in segs {
        match *s {
            Seg::M(p) => {
                finish!();
                cur = p; start = p;
                sub_first_vert = f.verts.len();
                f.verts.push(Vertex { p, ang_in: None, ang_out: None });
            }
            Seg::L(p) => {
                need_sub!();
                if dist(p, cur) > 1e-7 * (1.0 + p.0.abs() + p.1.abs()) { last_line = true; }
                let sb = sub.as_mut().unwrap();
                sb.pts.push(p); sb.hard.push(true);
                ext(&mut sbb, p);
                let d = dir(cur, p);
                if let Some(v) = f.verts.last_mut() { v.ang_out = d; }
                f.verts.push(Vertex { p, ang_in: d, ang_out: None });
                cur = p;
            }
            Seg::C(..) | Seg::Q(..) | Seg::A { .. } => {
                need_sub!();
                let list: Vec<Seg> = match *s {
                    Seg::Q(c, p) => vec![Seg::C(
                        (cur.0 + 2.0 / 3.0 * (c.0 - cur.0), cur.1 + 2.0 / 3.0 * (c.1 - cur.1)),
                        (p.0 + 2.0 / 3.0 * (c.0 - p.0), p.1 + 2.0 / 3.0 * (c.1 - p.1)), p)],
                    Seg::A { r, rot, large, sweep, to } => arc_to_cubics(cur, r, rot, large, sweep, to),
                    x => vec![x],
                };
                let end = match *s { Seg::C(_, _, p) => p, Seg::Q(_, p) => p, Seg::A { to, .. } => to, _ => unreachable!() };
                last_line = match *s { Seg::C(a, b, p) if a == b && b == p && p == cur => last_line, Seg::C(a, b, p) => on_chord(cur, p, a) && on_chord(cur, p, b), _ => false };
                let p00 = cur;
                let mut din = None;
                let mut dout = None;
                let sb = sub.as_mut().unwrap();
                let ln = list.len();
                if ln == 0 { sb.pts.push(end); sb.hard.push(true); }
                for (k, q) in list.iter().enumerate() {
                    match *q {
                        Seg::L(p) => {
                            sb.pts.push(p); sb.hard.push(true);
                            ext(&mut sbb, p);
                            dout = dir(cur, p); din = dout;
                            cur = p;
                        }
                        Seg::C(a, b, p) => {
                            cubic_ext(&mut sbb, cur, a, b, p);
                            if k == 0 { dout = dir(cur, a).or(dir(cur, b)).or(dir(cur, p)); }
                            if k + 1 == ln { din = dir(b, p).or(dir(a, p)).or(dir(cur, p)); }
                            // independent of the scale, so the same curve gets the same vertices before and after cleaning
                            let n = 64;
                            for i in 1..=n {
                                let pt = if i == n { p } else { cubic(cur, a, b, p, i as f64 / n as f64) };
                                sb.pts.push(pt);
                                sb.hard.push(i == n && k + 1 == ln);
                            }
                            cur = p;
                        }
                        _ => {}
                    }
                }
                let _ = p00;
                cur = end;
                if let Some(v) = f.verts.last_mut() { v.ang_out = dout; }
                f.verts.push(Vertex { p: end, ang_in: din, ang_out: None });
            }
            Seg::Z => {
                if sub.is_none() {
                    // M followed by Z, or Z Z
                    need_sub!();
                }
                let sb = sub.as_mut().unwrap();
                sb.closed = true;
                let d = dir(cur, start);
                if let Some(v) = f.verts.last_mut() { if d.is_some() { v.ang_out = d; } }
                let first_out = f.verts.get(sub_first_vert).and_then(|v| v.ang_out);
                let last_in = if d.is_some() { d } else { f.verts.last().and_then(|v| v.ang_in) };
                if let Some(v) = f.verts.get_mut(sub_first_vert) { if v.ang_in.is_none() { v.ang_in = last_in; } }
                f.verts.push(Vertex { p: start, ang_in: last_in, ang_out: first_out });
                cur = start;
                finish!();
                sub_first_vert = f.verts.len() - 1;
            }
        }
    }
    finish!();
    f
}

impl Flat {
    /// Points spread evenly along the outline; nothing if it has no length.
    pub fn samples(&self, k: usize) -> Vec<Pt> {
        let mut segs: Vec<(Pt, Pt)> = vec![];
        for s in &self.subs {
            for w in s.pts.windows(2) { segs.push((w[0], w[1])); }
            if s.closed && !s.pts.is_empty() { segs.push((*s.pts.last().unwrap(), s.pts[0])); }
        }
        let total: f64 = segs.iter().map(|s| dist(s.0, s.1)).sum();
        if total < 1e-6 { return vec![]; }
        let mut out = vec![];
        let mut acc = 0.0;
        let mut i = 0;
        for (a, b) in segs {
            let l = dist(a, b);
            while i < k && (i as f64 + 0.5) / k as f64 * total <= acc + l {
                let t = if l > 0.0 { ((i as f64 + 0.5) / k as f64 * total - acc) / l } else { 0.0 };
                out.push((a.0 + t * (b.0 - a.0), a.1 + t * (b.1 - a.1)));
                i += 1;
            }
            acc += l;
        }
        out
    }
    pub fn inside(&self, p: Pt, evenodd: bool) -> bool {
        if let Some(b) = self.bbox {
            if p.0 < b[0] - 1e-9 || p.0 > b[2] + 1e-9 || p.1 < b[1] - 1e-9 || p.1 > b[3] + 1e-9 { return false; }
        } else { return false; }
        let mut w = 0i32;
        for s in &self.subs {
            let n = s.pts.len();
            if n < 2 { continue; }
            for i in 0..n {
                let a = s.pts[i];
                let b = s.pts[if i + 1 == n { 0 } else { i + 1 }];
                if (a.1 <= p.1) != (b.1 <= p.1) {
                    let t = (p.1 - a.1) / (b.1 - a.1);
                    let x = a.0 + t * (b.0 - a.0);
                    if x > p.0 { w += if b.1 > a.1 { 1 } else { -1 }; }
                }
            }
        }
        if evenodd { w & 1 != 0 } else { w != 0 }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct StrokeGeom {
    pub width: f64,
    pub cap: u8,  // 0 butt 1 round 2 square
    pub join: u8, // 0 miter 1 round 2 bevel
    pub miter: f64,
    pub dash: Vec<f64>,
    pub dashoff: f64,
}

#[derive(Clone, Debug, Default)]
struct Run { pts: Vec<Pt>, hard: Vec<bool>, closed: bool }

/// Pre-split runs for stroking.
#[derive(Clone, Debug, Default)]
pub struct StrokeRuns { runs: Vec<Run>, dots: Vec<Pt>, pub amb: bool }

pub fn stroke_runs(f: &Flat, sg: &StrokeGeom) -> StrokeRuns {
    let mut out = StrokeRuns::default();
    for s in &f.subs {
        let mut pts = s.pts.clone();
        let mut hard = s.hard.clone();
        if s.closed && dist(*pts.last().unwrap(), pts[0]) > 1e-9 { pts.push(pts[0]); hard.push(true); }
        // drop zero-length pieces
        let mut q: Vec<Pt> = vec![pts[0]];
        let mut h: Vec<bool> = vec![hard[0]];
        for i in 1..pts.len() {
            if dist(*q.last().unwrap(), pts[i]) > 1e-9 { q.push(pts[i]); h.push(hard[i]); }
            else { let l = h.len() - 1; h[l] = h[l] || hard[i]; }
        }
        if q.len() < 2 {
            if pts.len() >= 2 || s.closed { out.dots.push(pts[0]); }
            continue;
        }
        let sum: f64 = sg.dash.iter().sum();
        if sg.dash.is_empty() || sum <= 1e-9 {
            out.runs.push(Run { pts: q, hard: h, closed: s.closed });
            continue;
        }
        // dashing
        let mut pat = sg.dash.clone();
        if pat.len() % 2 == 1 { let c = pat.clone(); pat.extend(c); }
        let total: f64 = pat.iter().sum();
        let len: f64 = q.windows(2).map(|w| dist(w[0], w[1])).sum();
        if len / total > 20000.0 { out.runs.push(Run { pts: q, hard: h, closed: s.closed }); continue; }
        let mut off = sg.dashoff % total;
        if off < 0.0 { off += total; }
        let mut idx = 0;
        while off >= pat[idx] && (off > 0.0 || pat[idx] == 0.0) {
            off -= pat[idx];
            idx = (idx + 1) % pat.len();
            if off <= 0.0 && pat[idx] > 0.0 { break; }
        }
        let mut remain = pat[idx] - off;
        const EPS: f64 = 1e-6;
        if remain < EPS || (off < EPS && sg.dashoff != 0.0) { out.amb = true; }
        let mut on = idx % 2 == 0;
        let mut run = Run::default();
        if on { run.pts.push(q[0]); run.hard.push(true); }
        for i in 1..q.len() {
            let mut a = q[i - 1];
            let b = q[i];
            let mut l = dist(a, b);
            let mut guard = 0;
            let end = i + 1 == q.len();
            while l > remain && guard < 100000 {
                guard += 1;
                let t = remain / l;
                let m = (a.0 + t * (b.0 - a.0), a.1 + t * (b.1 - a.1));
                if on {
                    // a boundary on a flattened vertex must not leave a tiny piece with a random direction
                    if run.pts.len() > 1 && dist(*run.pts.last().unwrap(), m) < 1e-7 { run.pts.pop(); run.hard.pop(); }
                    run.pts.push(m); run.hard.push(true);
                    out.runs.push(std::mem::take(&mut run));
                }
                on = !on;
                if on { run.pts.push(m); run.hard.push(true); }
                l -= remain;
                a = m;
                idx = (idx + 1) % pat.len();
                remain = pat[idx];
            }
            // a dash boundary on a corner or on the end of a subpath: any rounding changes caps and joins
            if (h[i] || end) && (l < EPS || remain - l < EPS) { out.amb = true; }
            remain -= l;
            if on {
                if dist(*run.pts.last().unwrap(), b) < 1e-7 { if let Some(x) = run.hard.last_mut() { *x = *x || h[i]; } }
                else { run.pts.push(b); run.hard.push(h[i]); }
            }
        }
        if on && run.pts.len() > 1 { out.runs.push(run); }
    }
    out
}

fn unit(a: Pt, b: Pt) -> Pt { let d = dist(a, b); if d == 0.0 { (1.0, 0.0) } else { ((b.0 - a.0) / d, (b.1 - a.1) / d) } }

fn in_tri(p: Pt, a: Pt, b: Pt, c: Pt) -> bool {
    let s = |p: Pt, q: Pt, r: Pt| (q.0 - p.0) * (r.1 - p.1) - (q.1 - p.1) * (r.0 - p.0);
    let (d1, d2, d3) = (s(a, b, p), s(b, c, p), s(c, a, p));
    !((d1 < 0.0 || d2 < 0.0 || d3 < 0.0) && (d1 > 0.0 || d2 > 0.0 || d3 > 0.0))
}

impl StrokeRuns {
    pub fn hit(&self, p: Pt, sg: &StrokeGeom) -> bool {
        let hw = sg.width / 2.0;
        if hw <= 0.0 { return false; }
        for d in &self.dots {
            match sg.cap {
                1 => if dist(*d, p) <= hw { return true; },
                2 => if (p.0 - d.0).abs() <= hw && (p.1 - d.1).abs() <= hw { return true; },
                _ => {}
            }
        }
        for r in &self.runs {
            let n = r.pts.len();
            if n == 1 || (n == 2 && dist(r.pts[0], r.pts[1]) < 1e-12) {
                match sg.cap { 1 => if dist(r.pts[0], p) <= hw { return true; }, _ => {} }
                continue;
            }
            for i in 1..n {
                let (a, b) = (r.pts[i - 1], r.pts[i]);
                let u = unit(a, b);
                let l = dist(a, b);
                let (px, py) = (p.0 - a.0, p.1 - a.1);
                let t = px * u.0 + py * u.1;
                let o = (-px * u.1 + py * u.0).abs();
                if o <= hw {
                    if t >= 0.0 && t <= l { return true; }
                    if !r.closed && sg.cap == 2 {
                        if i == 1 && t < 0.0 && t >= -hw { return true; }
                        if i == n - 1 && t > l && t <= l + hw { return true; }
                    }
                }
            }
            if !r.closed && sg.cap == 1 && (dist(p, r.pts[0]) <= hw || dist(p, r.pts[n - 1]) <= hw) { return true; }
            // joins
            let cnt = if r.closed { n - 1 } else { n };
            for i in 0..cnt {
                if !r.closed && (i == 0 || i == n - 1) { continue; }
                let v = r.pts[i];
                let dp = dist(p, v);
                if dp > hw * sg.miter.max(1.0) + 1e-9 { continue; }
                let prev = if i == 0 { r.pts[n - 2] } else { r.pts[i - 1] };
                let next = r.pts[i + 1];
                let u1 = unit(prev, v);
                let u2 = unit(v, next);
                let hard = r.hard[i] || (i == 0 && r.hard[n - 1]);
                let join = if hard { sg.join } else { 1 };
                if join == 1 {
                    let w = (p.0 - v.0, p.1 - v.1);
                    if dp <= hw && w.0 * u1.0 + w.1 * u1.1 >= 0.0 && w.0 * u2.0 + w.1 * u2.1 <= 0.0 { return true; }
                    continue;
                }
                let cross = u1.0 * u2.1 - u1.1 * u2.0;
                let dot = u1.0 * u2.0 + u1.1 * u2.1;
                if cross.abs() < 1e-9 && dot > 0.0 { continue; }
                let sgn = if cross > 0.0 { -1.0 } else { 1.0 };
                let n1 = (v.0 - u1.1 * hw * sgn, v.1 + u1.0 * hw * sgn);
                let n2 = (v.0 - u2.1 * hw * sgn, v.1 + u2.0 * hw * sgn);
                if in_tri(p, v, n1, n2) && cross.abs() > 1e-9 { return true; }
                if join == 0 {
                    // angle between segments
                    let cos_t = -dot;
                    let s = ((1.0 - cos_t) / 2.0).max(0.0).sqrt(); // sin(theta/2)
                    if s > 1e-9 && 1.0 / s <= sg.miter {
                        let bis = (u1.0 - u2.0, u1.1 - u2.1);
                        let bl = bis.0.hypot(bis.1);
                        if bl > 1e-12 {
                            let ml = hw / s;
                            let tip = (v.0 + bis.0 / bl * ml, v.1 + bis.1 / bl * ml);
                            if in_tri(p, n1, tip, n2) { return true; }
                        }
                    }
                }
            }
        }
        false
    }
}

pub fn parse_transform(s: &str) -> Option<Mat> {
    let mut m = Mat::ID;
    let mut p = NumScan::new(s);
    p.ws();
    while p.i < p.b.len() {
        let st = p.i;
        while p.i < p.b.len() && p.b[p.i].is_ascii_alphabetic() { p.i += 1; }
        let name = &s[st..p.i];
        p.ws();
        if p.b.get(p.i) != Some(&b'(') { return None; }
        p.i += 1;
        p.ws();
        let mut a = vec![];
        while p.i < p.b.len() && p.b[p.i] != b')' { a.push(p.num()?); p.sep(); }
        if p.i >= p.b.len() { return None; }
        p.i += 1;
        let t = match (name, a.len()) {
            ("matrix", 6) => Mat::new(a[0], a[1], a[2], a[3], a[4], a[5]),
            ("translate", 1) => Mat::tr(a[0], 0.0),
            ("translate", 2) => Mat::tr(a[0], a[1]),
            ("scale", 1) => Mat::scale(a[0], a[0]),
            ("scale", 2) => Mat::scale(a[0], a[1]),
            ("rotate", 1) => Mat::rot(a[0]),
            ("rotate", 3) => Mat::tr(a[1], a[2]).mul(&Mat::rot(a[0])).mul(&Mat::tr(-a[1], -a[2])),
            ("skewX", 1) => Mat::new(1.0, 0.0, a[0].to_radians().tan(), 1.0, 0.0, 0.0),
            ("skewY", 1) => Mat::new(1.0, a[0].to_radians().tan(), 0.0, 1.0, 0.0, 0.0),
            _ => return None,
        };
        m = m.mul(&t);
        p.sep();
    }
    Some(m)
}
