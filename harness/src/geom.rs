//! Outlines: canonical contours, sampling and distances.

use crate::ast::*;
use kurbo::{CubicBez, ParamCurve, PathEl, Point, QuadBez};

#[derive(Clone, Copy, Debug)]
pub enum Seg {
    Line(Point, Point),
    Cubic(CubicBez),
}
impl Seg {
    pub fn start(&self) -> Point {
        match self {
            Seg::Line(a, _) => *a,
            Seg::Cubic(c) => c.p0,
        }
    }
    pub fn end(&self) -> Point {
        match self {
            Seg::Line(_, b) => *b,
            Seg::Cubic(c) => c.p3,
        }
    }
    pub fn at(&self, t: f64) -> Point {
        match self {
            Seg::Line(a, b) => a.lerp(*b, t),
            Seg::Cubic(c) => c.eval(t),
        }
    }
    fn new(c: CubicBez) -> Seg {
        let z = |a: Point, b: Point| a == b;
        // control points resting on their ends draw a straight line
        if z(c.p0, c.p1) && z(c.p2, c.p3) { Seg::Line(c.p0, c.p3) } else { Seg::Cubic(c) }
    }
}

#[derive(Clone, Debug)]
pub struct Contour {
    pub start: Point,
    pub segs: Vec<Seg>,
    pub closed: bool,
}
impl Contour {
    /// Without zero-length lines, with the implied closing line of a closed contour.
    pub fn canon(&self) -> Contour {
        let mut segs: Vec<Seg> = self
            .segs
            .iter()
            .copied()
            .filter(|s| !matches!(s, Seg::Line(a, b) if a == b))
            .collect();
        if self.closed {
            let end = segs.last().map(|s| s.end()).unwrap_or(self.start);
            if end != self.start {
                segs.push(Seg::Line(end, self.start));
            }
        }
        Contour { start: self.start, segs, closed: self.closed }
    }
    pub fn polyline(&self, per_curve: usize) -> Vec<Point> {
        let c = self.canon();
        let mut out = vec![c.start];
        for s in &c.segs {
            match s {
                Seg::Line(_, b) => out.push(*b),
                Seg::Cubic(cb) => {
                    for k in 1..=per_curve {
                        out.push(cb.eval(k as f64 / per_curve as f64));
                    }
                }
            }
        }
        out
    }
}

/// Splits a path into contours, one per MoveTo (a segment after a ClosePath continues from the start point).
pub fn contours(els: &[PathEl]) -> Vec<Contour> {
    let mut out: Vec<Contour> = vec![];
    let mut cur = Point::ORIGIN;
    for el in els {
        if !matches!(el, PathEl::MoveTo(_)) && out.is_empty() {
            // a path must begin with a move; treat the origin as its start
            out.push(Contour { start: cur, segs: vec![], closed: false });
        }
        match *el {
            PathEl::MoveTo(p) => {
                out.push(Contour { start: p, segs: vec![], closed: false });
                cur = p;
            }
            PathEl::LineTo(p) => {
                out.last_mut().unwrap().segs.push(Seg::Line(cur, p));
                cur = p;
            }
            PathEl::QuadTo(a, p) => {
                out.last_mut().unwrap().segs.push(Seg::new(QuadBez::new(cur, a, p).raise()));
                cur = p;
            }
            PathEl::CurveTo(a, b, p) => {
                out.last_mut().unwrap().segs.push(Seg::new(CubicBez::new(cur, a, b, p)));
                cur = p;
            }
            PathEl::ClosePath => {
                let c = out.last_mut().unwrap();
                c.closed = true;
                cur = c.start;
            }
        }
    }
    out
}

/// What an outline must look like.
#[derive(Clone, Debug)]
pub enum Outline {
    Empty,
    Exact(Contour),
    /// exact, but a cyclic start shift is not: used for stars and polygons
    Rect { x: f64, y: f64, w: f64, h: f64, r: f64 },
    Ellipse { x: f64, y: f64, rx: f64, ry: f64 },
}

fn pt(v: V2) -> Point {
    Point::new(v[0], v[1])
}

pub fn bez_outline(b: &Bez) -> Outline {
    let b = crate::eval::full(b);
    let n = b.v.len();
    if n == 0 {
        return Outline::Empty;
    }
    let closed = b.closed == Some(true);
    let mut segs = vec![];
    let mut join = |i: usize, j: usize| {
        let add = |v: V2, d: V2| Point::new(v[0] + d[0], v[1] + d[1]);
        segs.push(Seg::new(CubicBez::new(pt(b.v[i]), add(b.v[i], b.o[i]), add(b.v[j], b.i[j]), pt(b.v[j]))));
    };
    for k in 1..n {
        join(k - 1, k);
    }
    if closed {
        join(n - 1, 0);
    }
    Outline::Exact(Contour { start: pt(b.v[0]), segs, closed })
}

pub fn star_outline(polygon: bool, c: V2, points: f64, ro: f64, so: f64, ri: f64, si: f64, rot: f64) -> Outline {
    let n = points.round() as usize;
    if n == 0 {
        return Outline::Empty;
    }
    let m = if polygon { n } else { 2 * n };
    let step = std::f64::consts::TAU / m as f64;
    let vertex = |k: usize| {
        let k = k % m;
        let (r, s) = if polygon || k % 2 == 0 { (ro, so) } else { (ri, si) };
        let ang = (rot - 90.0).to_radians() + step * k as f64;
        let (sn, cs) = ang.sin_cos();
        let p = Point::new(c[0] + r * cs, c[1] + r * sn);
        let len = r * (step / 2.0).tan() * (s / 100.0) * 4.0 / 3.0;
        (p, Point::new(-sn * len, cs * len))
    };
    let mut segs = vec![];
    for k in 0..m {
        let (p, a) = vertex(k);
        let (q, b) = vertex(k + 1);
        let straight = a.to_vec2().hypot() < 1e-7 && b.to_vec2().hypot() < 1e-7;
        segs.push(if straight {
            Seg::Line(p, q)
        } else {
            Seg::Cubic(CubicBez::new(p, p + a.to_vec2(), q - b.to_vec2(), q))
        });
    }
    Outline::Exact(Contour { start: vertex(0).0, segs, closed: true })
}

pub fn outline_count(o: &Outline) -> usize {
    !matches!(o, Outline::Empty) as usize
}

fn near(a: Point, b: Point, tol: f64) -> bool {
    let d = a.distance(b);
    d <= tol
}

fn scale_of(c: &Contour) -> f64 {
    c.polyline(2).iter().fold(1.0f64, |m, p| m.max(p.x.abs()).max(p.y.abs()))
}

/// Does the drawn contour have the wanted outline?
pub fn matches(want: &Outline, got: &Contour, tol_rel: f64) -> Result<(), String> {
    match want {
        Outline::Empty => Err("a contour where no outline is expected".into()),
        Outline::Exact(w) => {
            let (w, g) = (w.canon(), got.canon());
            let tol = tol_rel * scale_of(&w).max(1.0);
            // a closing line shorter than the tolerance may or may not be there
            let trim = |mut c: Contour| {
                c.segs.retain(|s| !matches!(s, Seg::Line(a, b) if a.distance(*b) <= tol));
                c
            };
            let (w, g) = (trim(w), trim(g));
            if w.segs.is_empty() && g.segs.is_empty() {
                return Ok(());
            }
            if w.closed != g.closed {
                return Err(format!("contour is {} instead of {}", oc(g.closed), oc(w.closed)));
            }
            if w.segs.len() != g.segs.len() {
                return Err(format!("{} segments instead of {}", g.segs.len(), w.segs.len()));
            }
            if !near(w.start, g.start, tol) {
                return Err(format!("starts at {:?} instead of {:?}", g.start, w.start));
            }
            for (k, (a, b)) in w.segs.iter().zip(&g.segs).enumerate() {
                let ok = match (a, b) {
                    (Seg::Line(..), Seg::Line(..)) => near(a.end(), b.end(), tol) && near(a.start(), b.start(), tol),
                    (Seg::Cubic(x), Seg::Cubic(y)) => {
                        near(x.p0, y.p0, tol) && near(x.p1, y.p1, tol) && near(x.p2, y.p2, tol) && near(x.p3, y.p3, tol)
                    }
                    // one side a line: the other must be that line within tolerance
                    (x, y) => near(x.start(), y.start(), tol) && near(x.end(), y.end(), tol) && straight(x, tol) && straight(y, tol),
                };
                if !ok {
                    return Err(format!("segment {k} is {b:?} instead of {a:?}"));
                }
            }
            Ok(())
        }
        Outline::Rect { x, y, w, h, r } => {
            let (hw, hh) = (w.abs() / 2.0, h.abs() / 2.0);
            let r = r.abs().min(hw).min(hh);
            let tol = (2e-3 * r).min(0.15) + 1e-6 * (1.0 + x.abs() + y.abs() + hw + hh) * (tol_rel / 1e-6).max(1.0);
            let sdf = |p: Point| {
                let (qx, qy) = ((p.x - x).abs() - (hw - r), (p.y - y).abs() - (hh - r));
                let out = (qx.max(0.0).powi(2) + qy.max(0.0).powi(2)).sqrt();
                (out + qx.max(qy).min(0.0) - r).abs()
            };
            let mut want_pts = vec![];
            for k in 0..16 {
                let t = k as f64 / 15.0 * 2.0 - 1.0;
                for s in [-1.0, 1.0] {
                    want_pts.push(Point::new(x + t * (hw - r), y + s * hh));
                    want_pts.push(Point::new(x + s * hw, y + t * (hh - r)));
                }
            }
            for (sx, sy) in [(-1.0, -1.0), (1.0, -1.0), (1.0, 1.0), (-1.0, 1.0)] {
                for k in 0..9 {
                    let (s, c) = (k as f64 / 8.0 * std::f64::consts::FRAC_PI_2).sin_cos();
                    want_pts.push(Point::new(x + sx * (hw - r + r * c), y + sy * (hh - r + r * s)));
                }
            }
            let area = 4.0 * hw * hh - (4.0 - std::f64::consts::PI) * r * r;
            region(got, &sdf, &want_pts, area, tol, 2.0 * (hw + hh) * 2.0)
        }
        Outline::Ellipse { x, y, rx, ry } => {
            let (rx, ry) = (rx.abs(), ry.abs());
            let big = rx.max(ry);
            let tol = (2e-3 * big).min(0.15) + 1e-6 * (1.0 + x.abs() + y.abs() + big) * (tol_rel / 1e-6).max(1.0);
            let mut want_pts = vec![];
            for k in 0..720 {
                let (s, c) = (k as f64 / 720.0 * std::f64::consts::TAU).sin_cos();
                want_pts.push(Point::new(x + rx * c, y + ry * s));
            }
            let poly = { let mut p = want_pts.clone(); p.push(want_pts[0]); p };
            let sdf = |p: Point| dist_polyline(p, &poly);
            let area = std::f64::consts::PI * rx * ry;
            // 720 chords deviate by about 1e-5 of the radius
            region(got, &sdf, &want_pts, area, tol + 2e-5 * big, std::f64::consts::TAU * big)
        }
    }
}

fn oc(c: bool) -> &'static str {
    if c { "closed" } else { "open" }
}
fn straight(s: &Seg, tol: f64) -> bool {
    match s {
        Seg::Line(..) => true,
        Seg::Cubic(c) => (1..8).all(|k| {
            let p = c.eval(k as f64 / 8.0);
            dist_seg(p, c.p0, c.p3) <= tol
        }),
    }
}

fn region(got: &Contour, sdf: &dyn Fn(Point) -> f64, want: &[Point], area: f64, tol: f64, per: f64) -> Result<(), String> {
    let end = got.segs.last().map(|s| s.end()).unwrap_or(got.start);
    if !got.closed && !(end.distance(got.start) <= tol) {
        return Err("contour is open".into());
    }
    for s in &got.canon().segs {
        for k in 0..=8 {
            let p = s.at(k as f64 / 8.0);
            let d = sdf(p);
            if !(d <= tol) {
                return Err(format!("point {p:?} is {d} away from the outline (tolerance {tol})"));
            }
        }
    }
    let poly = got.polyline(64);
    for p in want {
        let d = dist_polyline(*p, &poly);
        if !(d <= tol + 1e-3 * tol) {
            return Err(format!("outline point {p:?} is {d} away from what is drawn (tolerance {tol})"));
        }
    }
    let mut a = 0.0;
    for w in poly.windows(2) {
        a += w[0].x * w[1].y - w[1].x * w[0].y;
    }
    let a = (a / 2.0).abs();
    if !((a - area).abs() <= tol * per + 1e-6 * (1.0 + area)) {
        return Err(format!("encloses area {a} instead of {area}"));
    }
    Ok(())
}

pub fn dist_seg(p: Point, a: Point, b: Point) -> f64 {
    let ab = b - a;
    let l2 = ab.hypot2();
    if l2 == 0.0 {
        return p.distance(a);
    }
    let t = ((p - a).dot(ab) / l2).clamp(0.0, 1.0);
    p.distance(a + ab * t)
}
pub fn dist_polyline(p: Point, poly: &[Point]) -> f64 {
    if poly.len() == 1 {
        return p.distance(poly[0]);
    }
    poly.windows(2).map(|w| dist_seg(p, w[0], w[1])).fold(f64::INFINITY, f64::min)
}
pub fn polyline_len(p: &[Point]) -> f64 {
    p.windows(2).map(|w| w[0].distance(w[1])).sum()
}
