//! Decides whether two display lists show the same picture.
use crate::geom::*;
use crate::rng::Rng;
use crate::scene::*;

#[derive(Clone, Debug)]
pub struct Tol {
    /// distance within which a boundary may move
    pub r: f64,
    /// probe offset from outlines
    pub delta: f64,
    /// colour channel tolerance
    pub col: f64,
    /// relative tolerance of structural numbers
    pub num: f64,
    pub max_points: usize,
}
impl Default for Tol {
    fn default() -> Tol { Tol { r: 0.012, delta: 0.04, col: 0.004, num: 2e-3, max_points: 420 } }
}

#[derive(Clone, Debug, Default)]
pub struct Stats { pub points: u64, pub painted: u64, pub retried: u64, pub glyphs: u64, pub filters: u64, pub images: u64 }

#[derive(Default)]
struct Lists<'a> {
    glyphs: Vec<&'a Glyph>,
    images: Vec<&'a Image>,
    filters: Vec<&'a Vec<Tok>>,
    floods: Vec<&'a Vec<Tok>>,
    draws: Vec<&'a Draw>,
    rects: Vec<(Mat, [f64; 4])>,
}

pub fn content(items: &[Item]) -> bool {
    items.iter().any(|i| match i {
        Item::G(g) => g.opacity > 0.0 && !g.clip.as_ref().map_or(false, |c| empty_clip(c))
            && !g.mask.as_ref().map_or(false, |m| !content(&m.group.items))
            && content(&g.items),
        Item::D(d) => paints(d),
        Item::T(t) => t.iter().any(|g| glyph_painted(g)),
        Item::I(_) => true,
    })
}

const PROBES: [(f64, f64); 3] = [(0.1, -0.1), (0.5, -0.6), (0.3, -0.3)];
/// The probe is next to an edge inside the paint: the colour of the other side is as good.
fn near(p: &Paint, op: f64, m: &Mat, i: usize, want: &Rgba, tol: f64) -> bool {
    if !matches!(p, Paint::Pat { .. } | Paint::Lin { .. } | Paint::Rad { .. }) { return false; }
    [1e-6f64, 0.003, 0.01].iter().any(|&d| [(d, 0.0), (-d, 0.0), (0.0, d), (0.0, -d), (d, d), (-d, d), (d, -d), (-d, -d)].iter().any(|o| {
        let mut c = paint_at(p, m.ap((PROBES[i].0 + o.0, PROBES[i].1 + o.1)));
        for v in c.iter_mut() { *v *= op; }
        rgba_eq(&c, want, tol)
    }))
}
fn pa(p: &Paint, op: f64, m: &Mat) -> Vec<Rgba> {
    PROBES.iter().map(|q| {
        let mut c = paint_at(p, m.ap(*q));
        for v in c.iter_mut() { *v *= op; }
        c
    }).collect()
}

fn glyph_painted(g: &Glyph) -> bool {
    g.evisible && g.m.inv().is_some() && g.ch != ' ' && {
        let p = |p: &Paint| match p { Paint::None => false, Paint::Pat { items, .. } => content(items), _ => true };
        (g.fill_op > 0.0 && p(&g.fill)) || (g.stroke_op > 0.0 && p(&g.stroke))
    }
}

fn collect<'a>(items: &'a [Item], l: &mut Lists<'a>, structural: bool, depth: usize) {
    if depth > 80 { return; }
    for i in items {
        match i {
            Item::G(g) => {
                let mut st = structural;
                if g.opacity <= 0.0 { st = false; }
                if let Some(c) = &g.clip {
                    if empty_clip(c) { st = false; }
                    collect_clip(c, l, depth);
                }
                if let Some(m) = &g.mask {
                    if !content(&m.group.items) { st = false; }
                    if let Some(i) = &m.inv { if let Some(k) = i.inv() { l.rects.push((k, [m.rect[0], m.rect[1], m.rect[2], m.rect[3]])); } }
                    collect(&m.group.items, l, false, depth + 1);
                }
                if st {
                    if let Some(f) = &g.filter { if content(&g.items) { l.filters.push(f); } else if g.bare && flood_like(f) { l.floods.push(f); } }
                }
                collect(&g.items, l, st, depth + 1);
            }
            Item::D(d) => {
                if d.inv.is_some() && d.painted { l.draws.push(d); }
                for p in [&d.fill, &d.stroke] { if let Paint::Pat { items, .. } = p { 
                    let _ = items;
                } }
            }
            Item::T(t) => { if structural { for g in t.iter() { if glyph_painted(g) { l.glyphs.push(g); } } } }
            Item::I(im) => {
                if im.ctm.inv().is_none() { continue; }
                l.rects.push((im.ctm, im.rect));
                if structural { l.images.push(im); }
            }
        }
    }
}
/// Paints even when the filtered content is empty.
fn flood_like(t: &[Tok]) -> bool {
    t.first() == Some(&Tok::S("userSpaceOnUse".into())) && t.iter().any(|t| match t { Tok::S(s) => s == "<feFlood" || s == "<feTurbulence" || s == "<feImage", _ => false })
}
fn empty_clip(c: &Clip) -> bool {
    c.rect.is_none() && c.shapes.is_empty() || c.rect.as_ref().map_or(false, |(_, r)| r[2] <= 0.0 || r[3] <= 0.0) || c.own.as_ref().map_or(false, |o| empty_clip(o))
}
fn collect_clip<'a>(c: &'a Clip, l: &mut Lists<'a>, depth: usize) {
    if let Some(o) = &c.own { if depth < 80 { collect_clip(o, l, depth + 1); } }
    if let Some((Some(i), r)) = &c.rect { if let Some(k) = i.inv() { l.rects.push((k, *r)); } }
    collect(&c.shapes, l, false, depth + 1);
}

fn close(a: f64, b: f64, rel: f64) -> bool { (a - b).abs() <= rel * (1.0 + a.abs().max(b.abs())) }

fn toks_eq(a: &[Tok], b: &[Tok], rel: f64) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| match (x, y) {
        (Tok::N(p), Tok::N(q)) => close(*p, *q, rel),
        (Tok::S(p), Tok::S(q)) => p == q,
        _ => false,
    })
}

/// The same rows in any order.
fn tables_eq(a: &[Vec<Tok>], b: &[Vec<Tok>], rel: f64) -> bool { a.len() == b.len() && tables_in(a, b, rel) }

fn tables_in(a: &[Vec<Tok>], b: &[Vec<Tok>], rel: f64) -> bool {
    let mut left: Vec<&Vec<Tok>> = b.iter().collect();
    a.iter().all(|x| match left.iter().position(|y| toks_eq(x, y, rel)) { Some(i) => { left.remove(i); true } None => false })
}

fn mat_eq(a: &Mat, b: &Mat, rel: f64) -> bool {
    close(a.a, b.a, rel) && close(a.b, b.b, rel) && close(a.c, b.c, rel) && close(a.d, b.d, rel) && close(a.e, b.e, rel * 5.0) && close(a.f, b.f, rel * 5.0)
}

fn rgba_eq(a: &Rgba, b: &Rgba, t: f64) -> bool { a.iter().zip(b.iter()).all(|(x, y)| (x - y).abs() <= t) }

/// A link to an element that is not shown by itself can be lost with it.
fn link_eq(a: &str, b: &str) -> bool {
    let local = |s: &str| s.is_empty() || s == "#local" || s == "#any";
    a == b || local(a) && local(b) && (a == "#any" || b == "#any")
}
fn top_eq(a: Option<(&str, &str)>, b: Option<(&str, &str)>) -> bool {
    match (a, b) { (Some(x), Some(y)) => link_eq(x.0, y.0) && x.1 == y.1, (None, None) => true, _ => false }
}

/// The top-most painted thing at p: (link, hints).
fn top<'a>(items: &'a [Item], p: Pt) -> Option<(&'a str, &'a str)> {
    for it in items.iter().rev() {
        match it {
            Item::G(g) => {
                let c = eval_group(g, p);
                if c[3] <= 1e-6 { continue; }
                if let Some(r) = top(&g.items, p) { return Some(r); }
            }
            other => {
                let mut o = [0.0; 4];
                eval_items(std::slice::from_ref(other), p, &mut o);
                if o[3] <= 1e-6 { continue; }
                return Some(match other {
                    Item::D(d) => (&d.link, &d.hints),
                    Item::I(i) => (&i.link, &i.hints),
                    Item::T(t) => (&t[0].link, ""),
                    _ => unreachable!(),
                });
            }
        }
    }
    None
}

const DEF_HINTS: [&str; 3] = ["auto|visiblePainted|auto|", "auto|visiblePainted|", ""];

fn interesting_tops(l: &Lists) -> bool {
    l.draws.iter().any(|d| !d.link.is_empty() || !DEF_HINTS.contains(&d.hints.as_str()))
        || l.images.iter().any(|d| !d.link.is_empty() || !DEF_HINTS.contains(&d.hints.as_str()))
}

fn probes(l: &Lists, rng: &mut Rng, tol: &Tol, out: &mut Vec<Pt>, per: usize) {
    for d in &l.draws {
        let sc = d.ctm.minscale();
        if !(sc > 1e-6) { continue; }
        let nsub = d.flat.subs.len();
        if nsub == 0 { continue; }
        for _ in 0..per {
            let s = &d.flat.subs[rng.n(nsub)];
            let n = s.pts.len();
            if n == 0 { continue; }
            let i = rng.n(n);
            let (a, b) = (s.pts[i], s.pts[(i + 1) % n]);
            let t = rng.f();
            let q = (a.0 + (b.0 - a.0) * t, a.1 + (b.1 - a.1) * t);
            let (dx, dy) = (b.0 - a.0, b.1 - a.1);
            let l2 = dx.hypot(dy);
            let nn = if l2 > 1e-12 { (-dy / l2, dx / l2) } else { let an = rng.f() * 6.283; (an.cos(), an.sin()) };
            let dl = tol.delta / sc;
            let sg = if rng.p(50) { 1.0 } else { -1.0 };
            let has_stroke = !matches!(d.stroke, Paint::None) && d.stroke_op > 0.0 && d.sg.width > 0.0;
            let hw = d.sg.width / 2.0;
            let off = if has_stroke {
                match rng.n(4) { 0 => hw + dl, 1 => (hw - dl).max(0.0), 2 => hw * rng.f(), _ => dl }
            } else { dl };
            if has_stroke && rng.p(25) {
                // joins and caps
                let an = rng.f() * std::f64::consts::PI * 2.0;
                let rr = hw * rng.r(0.2, 1.6);
                let hv: Vec<usize> = (0..n).filter(|&k| s.hard[k]).collect();
                let v = s.pts[if hv.is_empty() { i } else { hv[rng.n(hv.len())] }];
                out.push(d.ctm.ap((v.0 + rr * an.cos(), v.1 + rr * an.sin())));
            } else {
                out.push(d.ctm.ap((q.0 + nn.0 * off * sg, q.1 + nn.1 * off * sg)));
                if !has_stroke { out.push(d.ctm.ap((q.0 - nn.0 * off * sg, q.1 - nn.1 * off * sg))); }
            }
        }
        if let Some(b) = d.flat.bbox {
            for _ in 0..2 { out.push(d.ctm.ap((rng.r(b[0], b[2]), rng.r(b[1], b[3])))); }
        }
    }
    for (m, r) in &l.rects {
        let sc = m.minscale();
        if !(sc > 1e-6) { continue; }
        let dl = tol.delta / sc;
        for _ in 0..4 {
            let s = if rng.p(50) { dl } else { -dl };
            let p = match rng.n(4) {
                0 => (rng.r(r[0], r[0] + r[2]), r[1] + s),
                1 => (rng.r(r[0], r[0] + r[2]), r[1] + r[3] + s),
                2 => (r[0] + s, rng.r(r[1], r[1] + r[3])),
                _ => (r[0] + r[2] + s, rng.r(r[1], r[1] + r[3])),
            };
            out.push(m.ap(p));
        }
    }
    for g in l.glyphs.iter().take(30) { out.push(g.m.ap((rng.r(0.05, 0.55), rng.r(-0.7, 0.0)))); }
}

pub fn compare(a: &Scene, b: &Scene, tol: &Tol, rng: &mut Rng) -> Result<Stats, String> {
    let mut st = Stats::default();
    if !toks_eq(&a.rootkey, &b.rootkey, tol.num) {
        return Err(format!("root viewport differs: {:?} vs {:?}", a.rootkey, b.rootkey));
    }
    let mut la = Lists::default();
    let mut lb = Lists::default();
    collect(&a.root.items, &mut la, true, 0);
    collect(&b.root.items, &mut lb, true, 0);
    // unused ones can be removed
    if !tables_in(&b.views, &a.views, tol.num) { return Err(format!("views differ: {:?} vs {:?}", a.views, b.views)); }
    // text attributes of a 'font-face' are needless when there is no text
    if !la.glyphs.is_empty() && !tables_eq(&a.fonts, &b.fonts, tol.num) { return Err(format!("fonts differ: {:?} vs {:?}", a.fonts, b.fonts)); }
    // text
    st.glyphs = la.glyphs.len() as u64;
    if la.glyphs.len() != lb.glyphs.len() {
        let s = |l: &Lists| l.glyphs.iter().map(|g| g.ch).collect::<String>();
        return Err(format!("text differs: {:?} vs {:?}", s(&la), s(&lb)));
    }
    for (x, y) in la.glyphs.iter().zip(&lb.glyphs) {
        if x.ch != y.ch { return Err(format!("text char {:?} vs {:?}", x.ch, y.ch)); }
        if !mat_eq(&x.m, &y.m, tol.num) { return Err(format!("glyph {:?} placed at {:?} vs {:?}", x.ch, x.m, y.m)); }
        if !key_eq(&x.key, &y.key) { return Err(format!("text style of {:?}: {} vs {}", x.ch, x.key, y.key)); }
        if !link_eq(&x.link, &y.link) { return Err(format!("text link {:?} vs {:?}", x.link, y.link)); }
        for (i, (p, q)) in pa(&x.fill, x.fill_op, &x.m).iter().zip(&pa(&y.fill, y.fill_op, &y.m)).enumerate() {
            if !rgba_eq(p, q, tol.col) && !near(&x.fill, x.fill_op, &x.m, i, q, tol.col) { return Err(format!("text fill of {:?}: {:?} vs {:?}", x.ch, p, q)); }
        }
        for (i, (p, q)) in pa(&x.stroke, x.stroke_op, &x.m).iter().zip(&pa(&y.stroke, y.stroke_op, &y.m)).enumerate() {
            if !rgba_eq(p, q, tol.col) && !near(&x.stroke, x.stroke_op, &x.m, i, q, tol.col) { return Err(format!("text stroke of {:?}: {:?} vs {:?}", x.ch, p, q)); }
        }
        if !matches!(x.stroke, Paint::None) && !matches!(y.stroke, Paint::None) && !close(x.sw, y.sw, tol.num) { return Err(format!("text stroke-width {} vs {}", x.sw, y.sw)); }
    }
    // images
    st.images = la.images.len() as u64;
    if la.images.len() != lb.images.len() { return Err(format!("{} images vs {}", la.images.len(), lb.images.len())); }
    for (x, y) in la.images.iter().zip(&lb.images) {
        if x.href != y.href || x.par != y.par || x.hints != y.hints { return Err(format!("image {:?} {:?} vs {:?} {:?}", x.href, x.par, y.href, y.par)); }
        let f = |i: &Image| i.ctm.mul(&Mat::new(i.rect[2], 0.0, 0.0, i.rect[3], i.rect[0], i.rect[1]));
        if !mat_eq(&f(x), &f(y), tol.num) { return Err(format!("image placement {:?} vs {:?}", x.ctm, y.ctm)); }
    }
    // filters
    st.filters = la.filters.len() as u64;
    if la.filters.len() != lb.filters.len() {
        return Err(format!("{} filtered layers vs {}", la.filters.len(), lb.filters.len()));
    }
    for (x, y) in la.filters.iter().zip(&lb.filters) {
        if !toks_eq(x, y, tol.num) { return Err(format!("filter differs: {:?} vs {:?}", x, y)); }
    }
    if la.floods.len() > lb.floods.len() { return Err(format!("{} filtered empty groups vs {}", la.floods.len(), lb.floods.len())); }
    // pixels
    let mut pts = vec![];
    let tot = (la.draws.len() + lb.draws.len()).max(1);
    let per = (tol.max_points / tot / 2).max(2).min(24);
    probes(&la, rng, tol, &mut pts, per);
    probes(&lb, rng, tol, &mut pts, per);
    let mut bb: Option<[f64; 4]> = None;
    for d in la.draws.iter().chain(&lb.draws) { bb = union(bb, d.aabb); }
    if let Some(b) = bb { for _ in 0..16 { pts.push((rng.r(b[0], b[2]), rng.r(b[1], b[3]))); } }
    if pts.len() > tol.max_points * 2 {
        for i in 0..tol.max_points * 2 { let j = i + rng.n(pts.len() - i); pts.swap(i, j); }
        pts.truncate(tol.max_points * 2);
    }
    let tops = interesting_tops(&la) || interesting_tops(&lb);
    for p in pts {
        if !p.0.is_finite() || !p.1.is_finite() || p.0.abs() > 1e7 || p.1.abs() > 1e7 { continue; }
        st.points += 1;
        let x = eval(a, p);
        let y = eval(b, p);
        if x[3] > 0.0 { st.painted += 1; }
        let eq = rgba_eq(&x, &y, tol.col);
        if eq && (!tops || top_eq(top(&a.root.items, p), top(&b.root.items, p))) { continue; }
        st.retried += 1;
        // boundary tolerance: both colours must be reachable in the other picture within r
        let scale = 1.0 + (p.0.abs().max(p.1.abs())) * 2e-5;
        // a colour that is not stable around p (an edge, a hairline, a zero-area shape) asks for nothing
        let rs = tol.r * 0.12;
        let mut ok1 = !eq && unstable(a, p, &x, rs, tol.col);
        let mut ok2 = !eq && unstable(b, p, &y, rs, tol.col);
        if ok1 && ok2 { continue; }
        'o: for k in 1..=3 {
            let rr = tol.r * scale * k as f64 / 3.0;
            for i in 0..16 {
                let an = i as f64 * std::f64::consts::PI / 8.0;
                let q = (p.0 + rr * an.cos(), p.1 + rr * an.sin());
                let ya = eval(b, q);
                let xa = eval(a, q);
                if eq {
                    if top_eq(top(&b.root.items, q), top(&a.root.items, p)) { ok1 = true; }
                    if top_eq(top(&a.root.items, q), top(&b.root.items, p)) { ok2 = true; }
                } else {
                    if !ok1 && rgba_eq(&x, &ya, tol.col) { ok1 = true; }
                    if !ok2 && rgba_eq(&y, &xa, tol.col) { ok2 = true; }
                }
                if ok1 && ok2 { break 'o; }
            }
        }
        // a gradient may be steep: also accept colours bracketed by the neighbourhood of the other picture
        if !(ok1 && ok2) && !eq && bracketed(a, b, p, tol.r * scale, tol.col) { continue; }
        // both directions must fail for boundary wobble around thin features: require at least one strict failure
        if !(ok1 || ok2) || !(ok1 && ok2) && confirm(a, b, p, tol, scale) {
            if eq { return Err(format!("at ({:.4},{:.4}) link/hints {:?} vs {:?}", p.0, p.1, top(&a.root.items, p), top(&b.root.items, p))); }
            return Err(format!("at ({:.4},{:.4}) colour {:.3?} vs {:.3?}", p.0, p.1, x, y));
        }
    }
    Ok(st)
}

fn unstable(s: &Scene, p: Pt, c: &Rgba, r: f64, t: f64) -> bool {
    (0..8).any(|i| {
        let an = 0.3 + i as f64 * std::f64::consts::PI / 4.0;
        !rgba_eq(&eval(s, (p.0 + r * an.cos(), p.1 + r * an.sin())), c, t)
    })
}

/// Second opinion for one-sided mismatches: the colour must be missing in a disc sampled more densely.
fn confirm(a: &Scene, b: &Scene, p: Pt, tol: &Tol, scale: f64) -> bool {
    let x = eval(a, p);
    let y = eval(b, p);
    let (mut ok1, mut ok2) = (unstable(a, p, &x, tol.r * 0.12, tol.col), unstable(b, p, &y, tol.r * 0.12, tol.col));
    for k in 1..=8 {
        let rr = tol.r * 1.3 * scale * k as f64 / 8.0;
        for i in 0..48 {
            let an = i as f64 * std::f64::consts::PI / 24.0;
            let q = (p.0 + rr * an.cos(), p.1 + rr * an.sin());
            if rgba_eq(&x, &eval(b, q), tol.col * 1.5) { ok1 = true; }
            if rgba_eq(&y, &eval(a, q), tol.col * 1.5) { ok2 = true; }
            if ok1 && ok2 { return false; }
        }
    }
    true
}

fn bracketed(a: &Scene, b: &Scene, p: Pt, r: f64, t: f64) -> bool {
    let x = eval(a, p);
    let y = eval(b, p);
    let rng = |s: &Scene| {
        let mut lo = [9.0f64; 4];
        let mut hi = [-9.0f64; 4];
        for i in 0..12 {
            let an = i as f64 * std::f64::consts::PI / 6.0;
            let c = eval(s, (p.0 + r * 0.5 * an.cos(), p.1 + r * 0.5 * an.sin()));
            for k in 0..4 { lo[k] = lo[k].min(c[k]); hi[k] = hi[k].max(c[k]); }
        }
        (lo, hi)
    };
    let (la, ha) = rng(a);
    let (lb, hb) = rng(b);
    // only for continuous variation: the neighbourhood spread must be small
    let small = (0..4).all(|k| ha[k] - la[k] < 0.2 && hb[k] - lb[k] < 0.2);
    small && (0..4).all(|k| y[k] >= la[k] - t && y[k] <= ha[k] + t && x[k] >= lb[k] - t && x[k] <= hb[k] + t)
}

fn key_eq(a: &str, b: &str) -> bool {
    if a == b { return true; }
    // numeric tolerant comparison of embedded numbers
    let f = |s: &str| -> (Vec<f64>, String) {
        let mut n = vec![];
        let mut t = String::new();
        let bs = s.as_bytes();
        let mut i = 0;
        while i < bs.len() {
            let c = bs[i];
            if c.is_ascii_digit() || (c == b'-' && i + 1 < bs.len() && bs[i + 1].is_ascii_digit()) {
                let mut sc = NumScan { b: bs, i };
                if let Some(v) = sc.num() { n.push(v); t.push('#'); i = sc.i; continue; }
            }
            t.push(c as char);
            i += 1;
        }
        (n, t)
    };
    let (na, ta) = f(a);
    let (nb, tb) = f(b);
    ta == tb && na.len() == nb.len() && na.iter().zip(&nb).all(|(x, y)| close(*x, *y, 5e-3) || (x - y).abs() <= 0.11 )
}
