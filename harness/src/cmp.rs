//! Matches recorded sink calls against the reference rendering.

use crate::geom::*;
use crate::refren::*;
use crate::sink::*;
use kurbo::{Affine, PathEl, Point};
use peniko::{Brush, Compose, GradientKind, Mix};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Cat {
    /// calls missing, surplus or in another order
    Struct,
    /// layer group notification
    Name,
    Index,
    ClipXf,
    ClipPath,
    RootClip,
    Blend,
    DrawXf,
    Path,
    Merge,
    Alpha,
    Color,
    Stroke,
    Kind,
    Grad,
}
#[derive(Clone, Debug)]
pub struct Mis {
    pub cat: Cat,
    pub msg: String,
    pub act: usize,
}

#[derive(Clone, Copy)]
pub struct Tol {
    pub xf: f64,
    pub path: f64,
    pub alpha: f64,
    pub color: f64,
    pub scalar: f64,
}
pub const TOL: Tol = Tol { xf: 1e-6, path: 1e-6, alpha: 2e-4, color: 2e-4, scalar: 1e-6 };

/// For each expected draw (by index in the expected list): the recorded draws with the parts each covers.
pub type DrawMap = Vec<(usize, Vec<(usize, Vec<usize>)>)>;

pub fn xf_close(a: &Affine, b: &Affine, tol: f64) -> bool {
    let (a, b) = (a.as_coeffs(), b.as_coeffs());
    let lin = a[..4].iter().chain(&b[..4]).fold(1.0f64, |m, x| m.max(x.abs()));
    let all = a.iter().chain(&b).fold(1.0f64, |m, x| m.max(x.abs()));
    (0..4).all(|k| (a[k] - b[k]).abs() <= tol * lin) && (4..6).all(|k| (a[k] - b[k]).abs() <= tol * all)
}
fn close(a: f64, b: f64, tol: f64) -> bool {
    (a - b).abs() <= tol * (1.0 + a.abs().max(b.abs()))
}

fn rect_path(path: &[PathEl], w: f64, h: f64) -> bool {
    let cs = contours(path);
    if cs.len() != 1 {
        return false;
    }
    matches(&Outline::Rect { x: w / 2.0, y: h / 2.0, w, h, r: 0.0 }, &cs[0], 1e-6).is_ok()
        || (w * h == 0.0
            && cs[0].canon().polyline(4).iter().all(|p| p.x >= -1e-6 && p.y >= -1e-6 && p.x <= w + 1e-6 && p.y <= h + 1e-6))
}

pub struct Cmp {
    pub mis: Vec<Mis>,
    pub map: DrawMap,
    /// false when matching stopped early
    pub aligned: bool,
}

fn kind(op: &Op) -> &'static str {
    match op {
        Op::Layer { .. } => "push_layer",
        Op::Clip { .. } => "push_clip_layer",
        Op::Pop => "pop_layer",
        Op::Draw { .. } => "draw",
        Op::Begin { .. } => "begin_layer_group",
        Op::End => "end_layer_group",
    }
}
fn ekind(e: &E) -> String {
    match e {
        E::Root { .. } => "the root clip".into(),
        E::Mask { .. } => "a mask clip".into(),
        E::Layer { what, .. } => format!("a layer push ({what:?})"),
        E::Pop => "pop_layer".into(),
        E::Begin { name, index, .. } => format!("begin_layer_group({name:?}, {index})"),
        E::End => "end_layer_group".into(),
        E::Draw(d) => format!("a {} of {} path(s)", if d.stroke.is_some() { "stroke" } else { "fill" }, d.parts.len()),
    }
}

pub fn transparent(op: &Op) -> bool {
    match op {
        Op::Draw { brush: Brush::Solid(c), .. } => c.components[3].abs() < 1e-6,
        Op::Draw { brush: Brush::Gradient(g), .. } => g.stops.iter().all(|s| s.color.components[3].abs() < 1e-6),
        _ => false,
    }
}

pub fn compare(exp: &[E], act: &[Op], tol: Tol) -> Cmp {
    let mut c = Cmp { mis: vec![], map: vec![], aligned: false };
    let mut a = 0;
    for (e, ex) in exp.iter().enumerate() {
        macro_rules! mis {
            ($cat:expr, $($t:tt)*) => {
                c.mis.push(Mis { cat: $cat, msg: format!($($t)*), act: a })
            };
        }
        if let E::Draw(d) = ex {
            let mut covered = vec![];
            let mut i = 0;
            let visible = d.parts.iter().any(|p| outline_count(&p.outline) > 0);
            if d.alpha.abs() < 1e-9 && !act.get(a).is_some_and(transparent) {
                continue; // an invisible paint may be left out
            }
            if !visible {
                // painting nothing may or may not be announced
                while let Some(Op::Draw { path, .. }) = act.get(a) {
                    if path.is_empty() && i < d.parts.len() { a += 1; i += 1 } else { break }
                }
                continue;
            }
            loop {
                while i < d.parts.len() && outline_count(&d.parts[i].outline) == 0 {
                    // an empty outline may be announced as an empty path
                    if d.parts[i].rel != Rel::Same
                        && matches!(act.get(a), Some(Op::Draw { path, .. }) if path.is_empty())
                    {
                        a += 1;
                    }
                    i += 1;
                }
                if i >= d.parts.len() {
                    break;
                }
                let Some(op @ Op::Draw { stroke, xf, brush, path }) = act.get(a) else {
                    mis!(Cat::Struct, "expected {}, found {}", ekind(ex), act.get(a).map(kind).unwrap_or("the end"));
                    return c;
                };
                if path.is_empty() {
                    a += 1;
                    if a > act.len() { break }
                    // surplus empty paints are harmless only where an empty outline was due
                    mis!(Cat::Path, "an empty path is painted where {} outline(s) are due", d.parts.len() - i);
                    return c;
                }
                let cs = contours(path);
                // which parts does it cover?
                let mut ix = vec![];
                let mut k = i;
                let mut need = cs.len();
                while k < d.parts.len() && need > 0 {
                    let n = outline_count(&d.parts[k].outline);
                    if n <= need {
                        need -= n;
                        ix.push(k);
                    } else {
                        break;
                    }
                    k += 1;
                }
                if need > 0 {
                    mis!(Cat::Struct, "{}: a paint has {} contours, only {} are due", ekind(ex), cs.len(), cs.len() - need);
                    return c;
                }
                for w in ix.iter().skip(1) {
                    if d.parts[*w].rel == Rel::Apart && outline_count(&d.parts[*w].outline) > 0 {
                        mis!(Cat::Merge, "{}: paths {} and {} are merged", ekind(ex), w - 1, w);
                    }
                }
                if k < d.parts.len() && d.parts[k].rel == Rel::Same && outline_count(&d.parts[k].outline) > 0 {
                    mis!(Cat::Merge, "{}: path {k} is not painted together with the one before it", ekind(ex));
                }
                // transform of the compound
                let p0 = &d.parts[ix[0]];
                if !xf_close(xf, &p0.xf, tol.xf) {
                    mis!(Cat::DrawXf, "paint placed by {:?} instead of {:?}", xf.as_coeffs(), p0.xf.as_coeffs());
                }
                let mut ci = 0;
                for p in &ix {
                    if outline_count(&d.parts[*p].outline) > 0 {
                        if let Err(m) = matches(&d.parts[*p].outline, &cs[ci], tol.path) {
                            mis!(Cat::Path, "path {p} of {}: {m}", ekind(ex));
                        }
                        ci += 1;
                    }
                }
                style(&mut c, e, a, d, stroke.as_ref(), brush, tol);
                let _ = op;
                covered.push((a, ix));
                i = k;
                a += 1;
            }
            c.map.push((e, covered));
            continue;
        }
        let Some(op) = act.get(a) else {
            mis!(Cat::Struct, "expected {}, found the end of the calls", ekind(ex));
            return c;
        };
        match (ex, op) {
            (E::Root { xf, w, h }, Op::Clip { xf: x, path }) => {
                if !xf_close(xf, x, 1e-12) || !rect_path(path, *w, *h) {
                    mis!(Cat::RootClip, "root clip is {} instead of 0,0..{w},{h} under {:?}", op_text(op), xf.as_coeffs());
                }
            }
            (E::Mask { xf, outline }, Op::Clip { xf: x, path }) => {
                if !xf_close(xf, x, tol.xf) {
                    mis!(Cat::ClipXf, "mask clip placed by {:?} instead of {:?}", x.as_coeffs(), xf.as_coeffs());
                }
                let cs = contours(path);
                if cs.len() != outline_count(outline) {
                    mis!(Cat::ClipPath, "mask clip has {} contours", cs.len());
                } else if !cs.is_empty()
                    && let Err(m) = matches(outline, &cs[0], tol.path)
                {
                    mis!(Cat::ClipPath, "mask clip: {m}");
                }
            }
            (E::Layer { what, xf, w, h }, Op::Layer { blend, alpha, xf: x, path }) => {
                let over = blend.mix == Mix::Normal && blend.compose == Compose::SrcOver;
                let ok = match what {
                    LayerWhat::Isolate => over,
                    LayerWhat::Inside => blend.mix == Mix::Normal && blend.compose == Compose::SrcIn,
                    LayerWhat::Outside => blend.mix == Mix::Normal && blend.compose == Compose::SrcOut,
                    LayerWhat::Any => true,
                };
                if !ok || (*alpha - 1.0).abs() > 1e-6 {
                    mis!(Cat::Blend, "{} is {:?}/{:?} with opacity {alpha}", ekind(ex), blend.mix, blend.compose);
                }
                if !xf_close(xf, x, tol.xf) || !rect_path(path, *w, *h) {
                    mis!(Cat::Blend, "{} does not cover the composition area: {}", ekind(ex), op_text(op));
                }
            }
            (E::Pop, Op::Pop) | (E::End, Op::End) => {}
            (E::Begin { name, index, kind }, Op::Begin { name: n, index: i }) => {
                if name != n {
                    mis!(Cat::Name, "layer {n:?} rendered where {name:?} is due");
                }
                if index != i {
                    mis!(Cat::Index, "{kind} layer announced as ({n:?}, {i}) instead of ({name:?}, {index})");
                }
            }
            _ => {
                mis!(Cat::Struct, "expected {}, found {} ({})", ekind(ex), kind(op), op_text(op).chars().take(200).collect::<String>());
                return c;
            }
        }
        a += 1;
    }
    if a < act.len() {
        c.mis.push(Mis { cat: Cat::Struct, msg: format!("surplus call {}", op_text(&act[a]).chars().take(300).collect::<String>()), act: a });
        return c;
    }
    c.aligned = true;
    c
}

fn style(c: &mut Cmp, _e: usize, a: usize, d: &EDraw, stroke: Option<&kurbo::Stroke>, brush: &Brush, tol: Tol) {
    let mut mis = |cat: Cat, msg: String| c.mis.push(Mis { cat, msg, act: a });
    match (&d.stroke, stroke) {
        (None, None) => {}
        (Some(w), Some(g)) => {
            if !close(w.width, g.width, tol.scalar) {
                mis(Cat::Stroke, format!("stroke width {} instead of {}", g.width, w.width));
            }
            if let Some(cap) = w.cap
                && (g.start_cap != cap || g.end_cap != cap)
            {
                mis(Cat::Stroke, format!("caps {:?}/{:?} instead of {cap:?}", g.start_cap, g.end_cap));
            }
            if let Some(j) = w.join
                && g.join != j
            {
                mis(Cat::Stroke, format!("join {:?} instead of {j:?}", g.join));
            }
            if let Some(m) = w.miter
                && !close(m, g.miter_limit, 1e-9)
            {
                mis(Cat::Stroke, format!("miter limit {} instead of {m}", g.miter_limit));
            }
        }
        (w, _) => mis(Cat::Kind, format!("expected a {}", if w.is_some() { "stroke, found a fill" } else { "fill, found a stroke" })),
    }
    match (&d.brush, brush) {
        (EBrush::Solid(rgb), Brush::Solid(col)) => {
            let g = col.components;
            if (0..3).any(|k| (rgb[k] - g[k] as f64).abs() > tol.color * (1.0 + rgb[k].abs())) {
                mis(Cat::Color, format!("colour {:?} instead of {rgb:?}", &g[..3]));
            }
            if !((d.alpha - g[3] as f64).abs() <= tol.alpha * (1.0 + d.alpha.abs())) {
                mis(Cat::Alpha, format!("paint opacity {} instead of {}", g[3], d.alpha));
            }
        }
        (EBrush::Grad { radial, s, e: end, stops, alpha }, Brush::Gradient(g)) => {
            let pt = |p: &Point, v: &[f64; 2]| close(p.x, v[0], tol.scalar) && close(p.y, v[1], tol.scalar);
            match (&g.kind, radial) {
                (GradientKind::Linear(l), false) => {
                    if !pt(&l.start, s) || !pt(&l.end, end) {
                        mis(Cat::Grad, format!("linear gradient from {:?} to {:?} instead of {s:?} to {end:?}", l.start, l.end));
                    }
                }
                (GradientKind::Radial(r), true) => {
                    let rad = ((end[0] - s[0]).powi(2) + (end[1] - s[1]).powi(2)).sqrt();
                    if !pt(&r.start_center, s) || !pt(&r.end_center, s) || r.start_radius != 0.0 || !close(r.end_radius as f64, rad, 1e-5) {
                        mis(Cat::Grad, format!("radial gradient {:?} instead of centre {s:?} radius {rad}", r));
                    }
                }
                (k, _) => mis(Cat::Grad, format!("gradient kind {k:?}, radial expected: {radial}")),
            }
            if g.stops.len() != stops.len() {
                mis(Cat::Grad, format!("{} stops instead of {}", g.stops.len(), stops.len()));
                return;
            }
            for (k, (w, s)) in stops.iter().zip(g.stops.iter()).enumerate() {
                let got = s.color.components;
                if (w[0] - s.offset as f64).abs() > tol.color {
                    mis(Cat::Grad, format!("stop {k} at {} instead of {}", s.offset, w[0]));
                }
                if (0..3).any(|j| (w[1 + j] - got[j] as f64).abs() > tol.color * (1.0 + w[1 + j].abs())) {
                    mis(Cat::Grad, format!("stop {k} has colour {:?} instead of {:?}", &got[..3], &w[1..]));
                }
                let (lo, hi) = (d.alpha * alpha[k].0, d.alpha * alpha[k].1);
                let (g, slack) = (got[3] as f64, tol.alpha * (1.0 + lo.abs().max(hi.abs())));
                if !(lo - slack <= g && g <= hi + slack) {
                    mis(Cat::Alpha, format!("gradient stop {k} has opacity {g} instead of {}", if lo == hi { format!("{lo}") } else { format!("{lo} to {hi}") }));
                }
            }
        }
        _ => mis(Cat::Kind, "solid paint instead of a gradient or the reverse".into()),
    }
}
