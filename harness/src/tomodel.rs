//! Builds velato's runtime model by hand from an abstract document, without going through the importer.

use crate::ast::*;
use crate::eval::full;
use crate::refren::{find, is_matte_source, mattes};
use kurbo::{PathEl, Point, Size, Vec2};
use peniko::{BlendMode, Color, Compose, Mix};
use velato::Composition;
use velato::model::{self, Animated, EasingHandle, Time, Tween, Value, animated, fixed};

pub fn time(t: f64, ease: &Option<Ease>, hold: bool) -> Time {
    let h = |v: V2| EasingHandle { x: v[0], y: v[1] };
    Time { frame: t, in_tangent: ease.map(|e| h(e.i)), out_tangent: ease.map(|e| h(e.o)), hold }
}
pub fn value<T: Clone, U: Tween>(a: &Anim<T>, f: impl Fn(&T) -> U) -> Value<U> {
    match a {
        Anim::Static(v) => Value::Fixed(f(v)),
        Anim::Keys(k) => Value::Animated(Animated {
            times: k.iter().map(|k| time(k.t, &k.ease, k.hold)).collect(),
            values: k.iter().map(|k| f(&k.v)).collect(),
        }),
    }
}
pub fn num(a: &Anim<f64>) -> Value<f64> {
    value(a, |v| *v)
}
pub fn opt(a: &Option<Anim<f64>>, d: f64) -> Value<f64> {
    a.as_ref().map(num).unwrap_or(Value::Fixed(d))
}
pub fn pt(v: &V2) -> Point {
    Point::new(v[0], v[1])
}
pub fn point(a: &Anim<V2>) -> Value<Point> {
    value(a, pt)
}
pub fn vec2(a: &Anim<V2>) -> Value<Vec2> {
    value(a, |v| Vec2::new(v[0], v[1]))
}
pub fn size(a: &Anim<V2>) -> Value<Size> {
    value(a, |v| Size::new(v[0], v[1]))
}
pub fn color(a: &Anim<[f64; 3]>) -> Value<Color> {
    value(a, |v| Color::new([v[0] as f32, v[1] as f32, v[2] as f32, 1.0]))
}

pub fn transform(x: &Xf) -> animated::Transform {
    animated::Transform {
        anchor: x.a.as_ref().map(point).unwrap_or_default(),
        position: match &x.p {
            Pos::Vec(p) => animated::Position::Value(point(p)),
            Pos::Split(a, b) => animated::Position::SplitValues((num(a), num(b))),
        },
        rotation: match &x.r {
            None => Value::Fixed(0.0),
            Some(Rot::Plain(r)) | Some(Rot::Split(r)) => num(r),
        },
        scale: x.s.as_ref().map(vec2).unwrap_or(Value::Fixed(Vec2::new(100.0, 100.0))),
        skew: opt(&x.sk, 0.0),
        skew_angle: opt(&x.sa, 0.0),
    }
}

pub fn points(b: &Bez) -> Vec<Point> {
    let b = full(b);
    (0..b.v.len()).flat_map(|k| [pt(&b.v[k]), pt(&b.i[k]), pt(&b.o[k])]).collect()
}
/// A static path as the model's own spline draws it.
fn elements(b: &Bez) -> Vec<PathEl> {
    let mut out = vec![];
    let spline = animated::Spline {
        is_closed: b.closed == Some(true),
        times: vec![time(0.0, &None, false)],
        values: vec![animated::SplineKeyframeValues { start: points(b), end: None }],
    };
    spline.evaluate(0.0, &mut out);
    out
}
pub fn path(p: &PathVal) -> model::Geometry {
    match p {
        PathVal::Static(b) => model::Geometry::Fixed(elements(b)),
        PathVal::Keys(ks) => {
            let start = |k: usize| ks[k].start.clone().unwrap_or_else(|| ks[k - 1].end.clone().or(ks[k - 1].start.clone()).unwrap());
            model::Geometry::Spline(animated::Spline {
                is_closed: ks.iter().any(|k| k.start.iter().chain(k.end.iter()).any(|b| b.closed == Some(true))),
                times: ks.iter().map(|k| time(k.t, &k.ease, k.hold)).collect(),
                values: (0..ks.len())
                    .map(|k| animated::SplineKeyframeValues { start: points(&start(k)), end: ks[k].end.as_ref().map(points) })
                    .collect(),
            })
        }
    }
}
pub fn star(s: &Star) -> animated::Star {
    animated::Star {
        is_polygon: s.polygon,
        direction: 1.0,
        position: point(&s.p),
        inner_radius: opt(&s.ir, 0.0),
        inner_roundness: opt(&s.is, 0.0),
        outer_radius: num(&s.or),
        outer_roundness: num(&s.os),
        rotation: num(&s.r),
        points: num(&s.pt),
    }
}

pub fn stroke(s: &StrokeP) -> animated::Stroke {
    animated::Stroke {
        width: num(&s.w),
        join: match s.lj {
            Some(1) => kurbo::Join::Miter,
            Some(3) => kurbo::Join::Bevel,
            _ => kurbo::Join::Round,
        },
        miter_limit: s.ml,
        cap: match s.lc {
            Some(1) => kurbo::Cap::Butt,
            Some(3) => kurbo::Cap::Square,
            _ => kurbo::Cap::Round,
        },
    }
}
/// Stops of one keyframe, five numbers each; transparency stops must be uniform.
fn stop_values(v: &[f64], count: usize) -> Vec<f64> {
    let n = count.min(v.len() / 4);
    let rest: Vec<f64> = v[4 * n..].chunks_exact(2).map(|c| c[1]).collect();
    let al = rest.first().copied().unwrap_or(1.0);
    (0..n).flat_map(|k| [v[4 * k], v[4 * k + 1], v[4 * k + 2], v[4 * k + 3], al]).collect()
}
pub fn stops(g: &Grad) -> model::ColorStops {
    match &g.stops {
        Anim::Static(v) => {
            let mut out = fixed::ColorStops::default();
            for c in stop_values(v, g.count).chunks_exact(5) {
                out.push(peniko::ColorStop::from((c[0] as f32, Color::new([c[1] as f32, c[2] as f32, c[3] as f32, c[4] as f32]))));
            }
            model::ColorStops::Fixed(out)
        }
        Anim::Keys(k) => model::ColorStops::Animated(animated::ColorStops {
            frames: k.iter().map(|k| time(k.t, &k.ease, k.hold)).collect(),
            values: k.iter().map(|k| stop_values(&k.v, g.count)).collect(),
            count: g.count,
        }),
    }
}
pub fn gradient(g: &Grad) -> animated::Brush {
    animated::Brush::Gradient(animated::Gradient {
        is_radial: g.radial == Some(true),
        start_point: point(&g.s),
        end_point: point(&g.e),
        stops: stops(g),
    })
}
pub fn solid(c: &Anim<[f64; 3]>) -> animated::Brush {
    animated::Brush::Solid(color(c))
}
pub fn trim(s: &Anim<f64>, e: &Anim<f64>, o: &Anim<f64>) -> animated::Trim {
    animated::Trim { start: num(s), end: num(e), offset: num(o) }
}
fn draw(st: Option<&StrokeP>, brush: animated::Brush, o: &Anim<f64>) -> model::Shape {
    model::Shape::Draw(model::Draw { stroke: st.map(|s| stroke(s).into_model()), brush: brush.into_model(), opacity: num(o) })
}
pub fn group_xf(x: &Option<Xf>) -> Option<model::GroupTransform> {
    x.as_ref().map(|x| model::GroupTransform { transform: transform(x).into_model(), opacity: opt(&x.o, 100.0) })
}
pub fn shape(s: &Shape) -> Option<model::Shape> {
    use model::Geometry as G;
    Some(match s {
        Shape::Group { items, xf, .. } => model::Shape::Group(shapes(items), group_xf(xf)),
        Shape::Rect { p, s, r } => {
            model::Shape::Geometry(G::Rect(animated::Rect { is_ccw: false, position: point(p), size: size(s), corner_radius: num(r) }))
        }
        Shape::Ell { p, s } => model::Shape::Geometry(G::Ellipse(animated::Ellipse { is_ccw: false, position: point(p), size: size(s) })),
        Shape::Star(s) => model::Shape::Geometry(star(s).into_model()),
        Shape::Path(p) => model::Shape::Geometry(path(p)),
        Shape::Fill { c, o } => draw(None, solid(c), o),
        Shape::Stroke { c, o, st } => draw(Some(st), solid(c), o),
        Shape::GFill { g, o } => draw(None, gradient(g), o),
        Shape::GStroke { g, o, st } => draw(Some(st), gradient(g), o),
        Shape::Trim { s, e, o } => model::Shape::Trim(trim(s, e, o).into_model()),
        Shape::Ignored(_) | Shape::Hidden(_) => return None,
    })
}
pub fn shapes(v: &[Shape]) -> Vec<model::Shape> {
    v.iter().filter_map(shape).collect()
}

pub fn layers(ls: &[Layer]) -> Vec<model::Layer> {
    let ms = mattes(ls);
    let mode = |tt: u8| match tt {
        2 | 4 => BlendMode::new(Mix::Normal, Compose::SrcOut),
        _ => BlendMode::new(Mix::Normal, Compose::SrcIn),
    };
    ls.iter()
        .enumerate()
        .map(|(k, l)| model::Layer {
            name: l.name.clone().unwrap_or_default(),
            parent: l.parent.and_then(|i| find(ls, i)),
            transform: transform(&l.xf).into_model(),
            opacity: opt(&l.xf.o, 100.0),
            width: if let Kind::Precomp { w, .. } = l.kind { w } else { 0.0 },
            height: if let Kind::Precomp { h, .. } = l.kind { h } else { 0.0 },
            blend_mode: None,
            frames: l.ip..l.op,
            stretch: l.sr.unwrap_or(1.0),
            start_frame: l.st.unwrap_or(0.0),
            masks: l
                .masks
                .iter()
                .flatten()
                .filter_map(|m| {
                    Some(model::Mask { mode: BlendMode::default(), geometry: path(m.path.as_ref()?), opacity: opt(&m.o, 100.0) })
                })
                .collect(),
            is_mask: is_matte_source(l),
            mask_layer: ms[k].map(|i| (mode(l.tt.unwrap()), i)),
            content: match &l.kind {
                _ if l.hidden == Some(true) => model::Content::None,
                Kind::Shape(v) => model::Content::Shape(shapes(v)),
                Kind::Precomp { ref_id, .. } => model::Content::Instance { name: ref_id.clone(), time_remap: None },
                _ => model::Content::None,
            },
        })
        .collect()
}

pub fn comp(c: &Comp) -> Composition {
    Composition {
        frames: c.ip..c.op,
        frame_rate: c.fr,
        width: c.w,
        height: c.h,
        assets: c
            .assets
            .iter()
            .flatten()
            .filter_map(|a| match a {
                Asset::Precomp { id, layers: ls } => Some((id.clone(), layers(ls))),
                _ => None,
            })
            .collect(),
        layers: layers(&c.layers),
    }
}
