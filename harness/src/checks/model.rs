//! The runtime model used directly: values in their animated and stored forms, hand-built compositions, repeaters.

use super::common::*;
use super::metamorph::{Constant, Visit, close_ops, v_grad, v_shape, v_xf};
use crate::eval::*;
use crate::tomodel as tm;
use velato::model::{self, ValueRef, animated, fixed};

// ---- the repeater's numbers ----

#[derive(Clone, Debug)]
struct Rep {
    copies: Anim<f64>,
    offset: Anim<f64>,
    anchor: Anim<V2>,
    pos: Anim<V2>,
    rot: Anim<f64>,
    scale: Anim<V2>,
    so: Anim<f64>,
    eo: Anim<f64>,
}
impl Rep {
    fn visit(&mut self, v: &mut dyn Visit) {
        for a in [&mut self.copies, &mut self.offset, &mut self.rot, &mut self.so, &mut self.eo] {
            v.num(a)
        }
        for a in [&mut self.anchor, &mut self.pos, &mut self.scale] {
            v.v2(a)
        }
    }
    fn to_model(&self) -> animated::Repeater {
        animated::Repeater {
            copies: tm::num(&self.copies),
            offset: tm::num(&self.offset),
            anchor_point: tm::point(&self.anchor),
            position: tm::point(&self.pos),
            rotation: tm::num(&self.rot),
            scale: tm::vec2(&self.scale),
            start_opacity: tm::num(&self.so),
            end_opacity: tm::num(&self.eo),
        }
    }
    fn generate(g: &mut Gen) -> Rep {
        let whole = g.s.pct(50);
        // a negative factor has no fractional power
        let flip = whole && g.s.pct(40);
        let on = |g: &mut Gen| g.s.pct(60);
        Rep {
            copies: match g.s.below(4) {
                0 => g.anim(&mut |g| g.s.grid(0.0, 4.0, 0.1)),
                1 => Anim::Static(g.s.int(0, 4) as f64),
                _ => Anim::Static(g.s.int(2, 4) as f64),
            },
            offset: if !on(g) {
                Anim::Static(0.0)
            } else if whole {
                Anim::Static(g.s.int(-3, 3) as f64)
            } else {
                g.anim(&mut |g| g.s.grid(-3.0, 3.0, 0.05))
            },
            anchor: if on(g) { g.a_v2() } else { Anim::Static([0.0; 2]) },
            pos: if on(g) { g.a_v2() } else { Anim::Static([0.0; 2]) },
            rot: if on(g) { g.a_num(-400.0, 400.0) } else { Anim::Static(0.0) },
            scale: if on(g) {
                g.anim(&mut |g| {
                    let one = |g: &mut Gen| {
                        let v = g.s.num(20.0, 180.0);
                        if flip && g.s.pct(40) { -v } else { v }
                    };
                    [one(g), one(g)]
                })
            } else {
                Anim::Static([100.0; 2])
            },
            so: if on(g) { g.anim(&mut |g| if g.s.pct(25) { 0.0 } else { g.s.num(-30.0, 100.0) }) } else { Anim::Static(100.0) },
            eo: if on(g) { g.anim(&mut |g| if g.s.pct(25) { 0.0 } else { g.s.num(-60.0, 100.0) }) } else { Anim::Static(100.0) },
        }
    }
}

// ---- values ----

#[derive(Clone, Debug)]
enum Val {
    Xf(Xf),
    Stroke(StrokeP),
    Solid(Anim<[f64; 3]>),
    Grad(Grad),
    Stops(Grad),
    /// a trim, star, rectangle or ellipse
    Shape(Shape),
    Rep(Rep),
    Num(Anim<f64>),
    Point(Anim<V2>),
    Vec(Anim<V2>),
    Size(Anim<V2>),
}
impl Val {
    fn generate(g: &mut Gen) -> Val {
        match g.s.below(12) {
            0 | 1 => {
                let mut x = g.xf();
                x.o = None;
                Val::Xf(x)
            }
            2 => Val::Stroke(g.stroke()),
            3 => Val::Solid(g.color()),
            4 => Val::Grad(g.grad()),
            5 => Val::Stops(g.grad()),
            6 => Val::Shape(g.trim()),
            7 => Val::Shape(Shape::Star(g.star())),
            8 => Val::Shape(if g.s.pct(50) {
                Shape::Rect { p: g.a_v2(), s: g.anim(&mut |g| g.size()), r: g.a_num(0.0, 50.0) }
            } else {
                Shape::Ell { p: g.a_v2(), s: g.anim(&mut |g| g.size()) }
            }),
            9 => Val::Rep(Rep::generate(g)),
            10 => Val::Num(g.a_num(-500.0, 500.0)),
            _ => match g.s.below(3) {
                0 => Val::Point(g.a_v2()),
                1 => Val::Vec(g.a_v2()),
                _ => Val::Size(g.anim(&mut |g| g.size())),
            },
        }
    }
    fn visit(&mut self, v: &mut dyn Visit) {
        match self {
            Val::Xf(x) => v_xf(x, v),
            Val::Stroke(s) => v.num(&mut s.w),
            Val::Solid(c) => v.col(c),
            Val::Grad(g) => v_grad(g, v),
            Val::Stops(g) => v.vec(&mut g.stops),
            Val::Shape(s) => v_shape(s, v),
            Val::Rep(r) => r.visit(v),
            Val::Num(a) => v.num(a),
            Val::Point(a) | Val::Vec(a) | Val::Size(a) => v.v2(a),
        }
    }
}

/// Finds out whether anything is animated, and when.
#[derive(Default)]
struct Look {
    animated: usize,
    times: Vec<f64>,
}
impl Look {
    fn see<T: Clone>(&mut self, a: &Anim<T>) {
        self.animated += !a.is_static() as usize;
        a.times(&mut self.times);
    }
}
impl Visit for Look {
    fn num(&mut self, a: &mut Anim<f64>) {
        self.see(a)
    }
    fn v2(&mut self, a: &mut Anim<V2>) {
        self.see(a)
    }
    fn col(&mut self, a: &mut Anim<[f64; 3]>) {
        self.see(a)
    }
    fn vec(&mut self, a: &mut Anim<Vec<f64>>) {
        self.see(a)
    }
    fn path(&mut self, _: &mut PathVal) {}
}

type Numbers = Box<dyn Fn(f64) -> Vec<f64>>;
/// A value as described and as stored.
struct Forms {
    /// whether each reports itself fixed
    fixed: Vec<bool>,
    described: Numbers,
    stored: Numbers,
    reference: Option<Numbers>,
}

fn both<T: Clone>(v: ValueRef<'_, T>, f: impl Fn(&T) -> Vec<f64>) -> Vec<f64> {
    let mut out = f(v.as_ref());
    out.extend(f(&v.into_owned()));
    out
}
fn twice(v: Vec<f64>) -> Vec<f64> {
    let mut w = v.clone();
    w.extend(v);
    w
}
fn path_numbers(p: &[PathEl]) -> Vec<f64> {
    let mut out = vec![];
    for e in p {
        let (tag, ps): (f64, Vec<Point>) = match *e {
            PathEl::MoveTo(a) => (1.0, vec![a]),
            PathEl::LineTo(a) => (2.0, vec![a]),
            PathEl::QuadTo(a, b) => (3.0, vec![a, b]),
            PathEl::CurveTo(a, b, c) => (4.0, vec![a, b, c]),
            PathEl::ClosePath => (5.0, vec![]),
        };
        out.push(tag);
        out.extend(ps.iter().flat_map(|p| [p.x, p.y]));
    }
    out
}
fn geometry(g: &model::Geometry, f: f64) -> Vec<f64> {
    let mut p = vec![];
    g.evaluate(f, &mut p);
    path_numbers(&p)
}
fn stroke_numbers(s: &kurbo::Stroke) -> Vec<f64> {
    vec![s.width, s.miter_limit, s.join as u8 as f64, s.start_cap as u8 as f64, s.end_cap as u8 as f64, s.dash_pattern.len() as f64]
}
fn stop_numbers(s: &fixed::ColorStops) -> Vec<f64> {
    s.iter().flat_map(|s| std::iter::once(s.offset).chain(s.color.components)).map(f64::from).collect()
}
fn brush_numbers(b: &fixed::Brush) -> Vec<f64> {
    match b {
        peniko::Brush::Solid(c) => c.components.iter().map(|c| *c as f64).collect(),
        peniko::Brush::Gradient(g) => {
            let mut out = match &g.kind {
                peniko::GradientKind::Linear(l) => vec![1.0, l.start.x, l.start.y, l.end.x, l.end.y],
                peniko::GradientKind::Radial(r) => vec![
                    2.0,
                    r.start_center.x,
                    r.start_center.y,
                    r.end_center.x,
                    r.end_center.y,
                    r.start_radius as f64,
                    r.end_radius as f64,
                ],
                _ => vec![3.0],
            };
            out.extend(stop_numbers(&g.stops));
            out
        }
        _ => vec![-1.0],
    }
}
fn rep_numbers(r: &fixed::Repeater) -> Vec<f64> {
    vec![
        r.copies as f64,
        r.offset,
        r.anchor_point.x,
        r.anchor_point.y,
        r.position.x,
        r.position.y,
        r.rotation,
        r.scale.x,
        r.scale.y,
        r.start_opacity,
        r.end_opacity,
    ]
}
/// Five numbers per stop at a frame, of a gradient whose transparency stops are uniform.
fn stops_at(g: &Grad, f: f64, a: f64) -> Vec<f64> {
    let v = eval(&g.stops, f);
    let n = g.count.min(v.len() / 4);
    let al = v.get(4 * n + 1).copied().unwrap_or(1.0);
    (0..n).flat_map(|k| [v[4 * k], v[4 * k + 1], v[4 * k + 2], v[4 * k + 3], al * a]).collect()
}

fn forms(v: &Val, alpha: f64) -> Forms {
    match v.clone() {
        Val::Xf(x) => {
            let d = tm::transform(&x);
            let s = d.clone().into_model();
            Forms {
                fixed: vec![d.is_fixed(), s.is_fixed()],
                described: Box::new(move |f| twice(d.evaluate(f).as_coeffs().to_vec())),
                stored: Box::new(move |f| both(s.evaluate(f), |a| a.as_coeffs().to_vec())),
                reference: Some(Box::new(move |f| twice(xf_at(&x, f).as_coeffs().to_vec()))),
            }
        }
        Val::Stroke(st) => {
            let d = tm::stroke(&st);
            let s = d.clone().into_model();
            let r = d.clone();
            Forms {
                fixed: vec![d.is_fixed(), s.is_fixed()],
                described: Box::new(move |f| twice(stroke_numbers(&d.evaluate(f)))),
                stored: Box::new(move |f| both(s.evaluate(f), stroke_numbers)),
                reference: Some(Box::new(move |f| {
                    let ml = st.ml.unwrap_or(kurbo::Stroke::new(1.0).miter_limit);
                    twice(vec![eval(&st.w, f), ml, r.join as u8 as f64, r.cap as u8 as f64, r.cap as u8 as f64, 0.0])
                })),
            }
        }
        Val::Solid(c) => {
            let d = tm::solid(&c);
            let s = d.clone().into_model();
            Forms {
                fixed: vec![d.is_fixed(), s.is_fixed()],
                described: Box::new(move |f| twice(brush_numbers(&d.evaluate(alpha, f)))),
                stored: Box::new(move |f| both(s.evaluate(alpha, f), brush_numbers)),
                reference: Some(Box::new(move |f| {
                    let c = eval(&c, f);
                    twice(vec![c[0], c[1], c[2], alpha])
                })),
            }
        }
        Val::Grad(g) => {
            let d = tm::gradient(&g);
            let s = d.clone().into_model();
            Forms {
                fixed: vec![d.is_fixed(), s.is_fixed()],
                described: Box::new(move |f| twice(brush_numbers(&d.evaluate(alpha, f)))),
                stored: Box::new(move |f| both(s.evaluate(alpha, f), brush_numbers)),
                reference: Some(Box::new(move |f| {
                    let (s, e) = (eval(&g.s, f), eval(&g.e, f));
                    let mut out = if g.radial == Some(true) {
                        vec![2.0, s[0], s[1], s[0], s[1], 0.0, (e[0] - s[0]).hypot(e[1] - s[1])]
                    } else {
                        vec![1.0, s[0], s[1], e[0], e[1]]
                    };
                    out.extend(stops_at(&g, f, alpha));
                    twice(out)
                })),
            }
        }
        Val::Stops(g) => {
            let s = tm::stops(&g);
            let d = s.clone();
            Forms {
                fixed: vec![s.is_fixed()],
                described: Box::new(move |f| match &d {
                    model::ColorStops::Fixed(v) => twice(stop_numbers(v)),
                    model::ColorStops::Animated(v) => twice(stop_numbers(&v.evaluate(f))),
                }),
                stored: Box::new(move |f| both(s.evaluate(f), stop_numbers)),
                reference: Some(Box::new(move |f| twice(stops_at(&g, f, 1.0)))),
            }
        }
        Val::Shape(Shape::Trim { s: ts, e, o }) => {
            let d = tm::trim(&ts, &e, &o);
            let s = d.clone().into_model();
            let n = |t: &fixed::Trim| vec![t.start, t.end, t.offset];
            Forms {
                fixed: vec![d.is_fixed(), s.is_fixed()],
                described: Box::new(move |f| twice(n(&d.evaluate(f)))),
                stored: Box::new(move |f| both(s.evaluate(f), n)),
                reference: Some(Box::new(move |f| twice(vec![eval(&ts, f), eval(&e, f), eval(&o, f)]))),
            }
        }
        Val::Shape(Shape::Star(st)) => {
            let d = tm::star(&st);
            let s = d.clone().into_model();
            Forms {
                fixed: vec![d.is_fixed(), matches!(s, model::Geometry::Fixed(_))],
                described: Box::new(move |f| {
                    let mut p = vec![];
                    d.evaluate(f, &mut p);
                    path_numbers(&p)
                }),
                stored: Box::new(move |f| geometry(&s, f)),
                reference: None,
            }
        }
        Val::Shape(Shape::Rect { p, s, r }) => {
            let d = animated::Rect { is_ccw: false, position: tm::point(&p), size: tm::size(&s), corner_radius: tm::num(&r) };
            let st = model::Geometry::Rect(d.clone());
            // an overshooting size may be negative
            let ends = |r: kurbo::Rect| vec![r.abs().x0, r.abs().y0, r.abs().x1, r.abs().y1];
            let rect = move |q: kurbo::RoundedRect| ends(q.rect());
            Forms {
                fixed: vec![d.is_fixed()],
                described: Box::new({
                    let d = d.clone();
                    move |f| rect(d.evaluate(f))
                }),
                stored: Box::new(move |f| {
                    ends(path_bounds(&st, f))
                }),
                reference: Some(Box::new(move |f| {
                    let (p, s) = (eval(&p, f), eval(&s, f));
                    ends(kurbo::Rect::new(p[0] - s[0] / 2.0, p[1] - s[1] / 2.0, p[0] + s[0] / 2.0, p[1] + s[1] / 2.0))
                })),
            }
        }
        Val::Shape(Shape::Ell { p, s }) => {
            let d = animated::Ellipse { is_ccw: false, position: tm::point(&p), size: tm::size(&s) };
            let ell = move |f: f64| {
                let e = d.evaluate(f);
                let r = [e.radii().x.abs(), e.radii().y.abs()];
                vec![e.center().x, e.center().y, r[0].max(r[1]), r[0].min(r[1])]
            };
            let d = animated::Ellipse { is_ccw: false, position: tm::point(&p), size: tm::size(&s) };
            Forms {
                fixed: vec![d.is_fixed()],
                described: Box::new(ell.clone()),
                stored: Box::new(ell),
                reference: Some(Box::new(move |f| {
                    let (p, s) = (eval(&p, f), eval(&s, f));
                    let s = [s[0].abs(), s[1].abs()];
                    vec![p[0], p[1], s[0].max(s[1]) / 2.0, s[0].min(s[1]) / 2.0]
                })),
            }
        }
        Val::Shape(_) => unreachable!(),
        Val::Rep(r) => {
            let d = r.to_model();
            let s = d.clone().into_model();
            Forms {
                fixed: vec![d.is_fixed(), s.is_fixed()],
                described: Box::new(move |f| twice(rep_numbers(&d.evaluate(f)))),
                stored: Box::new(move |f| both(s.evaluate(f), rep_numbers)),
                reference: Some(Box::new(move |f| {
                    let (a, p, s) = (eval(&r.anchor, f), eval(&r.pos, f), eval(&r.scale, f));
                    twice(vec![copies(&r, f).0, eval(&r.offset, f), a[0], a[1], p[0], p[1], eval(&r.rot, f), s[0], s[1], eval(&r.so, f), eval(&r.eo, f)])
                })),
            }
        }
        Val::Num(a) => {
            let d = tm::num(&a);
            let s = d.clone();
            Forms {
                fixed: vec![d.is_fixed()],
                described: Box::new(move |f| vec![d.evaluate(f)]),
                stored: Box::new(move |f| vec![s.evaluate_or(f, -12345.0)]),
                reference: Some(Box::new(move |f| vec![eval(&a, f)])),
            }
        }
        Val::Point(a) => {
            let d = tm::point(&a);
            let s = d.clone();
            Forms {
                fixed: vec![d.is_fixed()],
                described: Box::new(move |f| vec![d.evaluate(f).x, d.evaluate(f).y]),
                stored: Box::new(move |f| {
                    let p = s.evaluate_or(f, Point::new(-12345.0, 0.0));
                    vec![p.x, p.y]
                }),
                reference: Some(Box::new(move |f| eval(&a, f).to_vec())),
            }
        }
        Val::Vec(a) => {
            let d = tm::vec2(&a);
            let s = d.clone();
            Forms {
                fixed: vec![d.is_fixed()],
                described: Box::new(move |f| vec![d.evaluate(f).x, d.evaluate(f).y]),
                stored: Box::new(move |f| {
                    let p = s.evaluate_or(f, kurbo::Vec2::new(-12345.0, 0.0));
                    vec![p.x, p.y]
                }),
                reference: Some(Box::new(move |f| eval(&a, f).to_vec())),
            }
        }
        Val::Size(a) => {
            let d = tm::size(&a);
            let s = d.clone();
            Forms {
                fixed: vec![d.is_fixed()],
                described: Box::new(move |f| vec![d.evaluate(f).width, d.evaluate(f).height]),
                stored: Box::new(move |f| {
                    let p = s.evaluate_or(f, kurbo::Size::new(-12345.0, 0.0));
                    vec![p.width, p.height]
                }),
                reference: Some(Box::new(move |f| eval(&a, f).to_vec())),
            }
        }
    }
}
fn path_bounds(g: &model::Geometry, f: f64) -> kurbo::Rect {
    let mut p = vec![];
    g.evaluate(f, &mut p);
    kurbo::Shape::bounding_box(&p.as_slice())
}

fn unlike(a: &[f64], b: &[f64]) -> bool {
    a.len() != b.len() || a.iter().zip(b).any(|(a, b)| !((a - b).abs() <= 2e-6 * (1.0 + a.abs().max(b.abs()))))
}

fn on_values(src: &mut Src, ctx: &mut Ctx) -> R {
    let prof = Prof {
        anim: src.pick(&[0, 15, 40, 100]),
        xf: 60,
        split: 35,
        skew: 50,
        omit: 10,
        ease: src.pick(&[0, 60]),
        hold: src.pick(&[0, 20]),
        uniform: true,
        ..Prof::default()
    };
    let mut v = Val::generate(&mut Gen { s: src, p: &prof });
    let mut look = Look::default();
    v.visit(&mut look);
    let al = alpha(src);
    ctx.input(format!("{v:?} opacity {al}"));
    ctx.tag(if look.animated > 0 { "animated" } else { "fixed" });
    ctx.nontrivial = true;
    let fo = sut(|| forms(&v, al));
    if fo.fixed.iter().any(|x| *x != (look.animated == 0)) {
        return fail(format!("{} component(s) are animated, yet fixed is reported as {:?}", look.animated, fo.fixed));
    }
    // the same numbers, written as keyframes
    let mut w = v.clone();
    let mut n = Constant { s: src, n: 0 };
    w.visit(&mut n);
    let changed = n.n > 0;
    let other = sut(|| forms(&w, al));
    if changed && other.fixed.iter().any(|x| *x) {
        return fail(format!("a value with animated components reports itself fixed: {w:?}"));
    }
    w.visit(&mut look);
    look.times.sort_by(f64::total_cmp);
    look.times.dedup();
    for _ in 0..5 {
        let f = r#gen::frame(src, &look.times, false);
        if let Val::Shape(Shape::Star(s)) = &v {
            let p = eval(&s.pt, f);
            if ((p - p.floor()) - 0.5).abs() < 1e-5 {
                continue;
            }
        }
        if let Val::Rep(r) = &v
            && copies(r, f).1
        {
            continue;
        }
        let a = sut(|| (fo.described)(f));
        for (what, b) in [
            ("as stored", sut(|| (fo.stored)(f))),
            ("with keyframes for its constants", sut(|| (other.described)(f))),
            ("with keyframes for its constants, as stored", sut(|| (other.stored)(f))),
        ] {
            if unlike(&a, &b) {
                return fail(format!("at frame {f} the value is {a:?}, {what} it is {b:?}"));
            }
        }
        if let Some(r) = &fo.reference {
            let b = r(f);
            // colours pass through single precision
            if a.len() != b.len() || a.iter().zip(&b).any(|(a, b)| !((a - b).abs() <= 1e-4 * (1.0 + a.abs().max(b.abs())))) {
                return fail(format!("at frame {f} the value is {a:?} instead of {b:?}"));
            }
        }
    }
    Ok(())
}

/// Number of copies at a frame, and whether rounding decides it.
fn copies(r: &Rep, f: f64) -> (f64, bool) {
    let n = eval(&r.copies, f);
    (n.round().max(0.0), ((n - n.floor()) - 0.5).abs() < 1e-5)
}

// ---- hand-built compositions ----

fn on_compositions(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut prof = Prof::all();
    prof.uniform = true;
    prof.wild = false;
    prof.wide = false;
    prof.anim = src.pick(&[0, 20, 50]);
    let mut comp = r#gen::comp(src, &prof);
    let mut any = false;
    each_layer(&mut comp, &mut |l| {
        if l.tt == Some(0) {
            l.tt = Some(1)
        }
    });
    each_shape(&mut comp, &mut |s| {
        if let Shape::Stroke { st, .. } | Shape::GStroke { st, .. } = s {
            st.lc.get_or_insert(2);
            st.lj.get_or_insert(2);
            st.ml.get_or_insert(4.0);
        }
        any |= matches!(s, Shape::Trim { .. });
    });
    let text = enc::encode(&comp, src, Extras::Meta, 4).text();
    ctx.input(text.clone());
    ctx.tag("composition");
    let c = import(&text)?;
    let hand = tm::comp(&comp);
    let times = r#gen::all_times(&comp);
    for _ in 0..3 {
        let f = r#gen::frame(src, &times, false);
        if r#gen::ambiguous(&comp, f) {
            continue;
        }
        let (xf, a) = (r#gen::affine(src), alpha(src));
        let (exp, stats) = expected(&comp, f, xf, a);
        if exp.len() > 20_000 || stats.ambiguous {
            continue;
        }
        let (x, y) = (rend(&c, f, xf, a), rend(&hand, f, xf, a));
        ctx.nontrivial |= stats.draws > 0;
        if let Err(m) = close_ops(&x, &y, 1e-6, 1.0) {
            // different calls may still paint the same
            if !any && cmp::compare(&exp, &x, TOL).mis.is_empty() && cmp::compare(&exp, &y, TOL).mis.is_empty() {
                continue;
            }
            ctx.note(format!("frame {f}, caller transform {:?}, opacity {a}", xf.as_coeffs()));
            ctx.note(format!("hand-built:\n{}", show(&y)));
            return fail(format!("at frame {f} the imported document renders unlike the hand-built one: {m}"));
        }
    }
    Ok(())
}

pub const P28: Check = Check {
    id: "P28",
    quick: 100_000,
    thorough: 3_000_000,
    rule: "a case counts when a model value is evaluated in its described and its stored form, or when a hand-built composition paints; distinct by the value or document",
    assumptions: &[
        "values agree within 2e-6, and 1e-4 with the reference evaluation (colours are single precision)",
        "hand-built compositions state caps, joins and miter limits, and use uniform transparency stops",
    ],
    run: |src, ctx| if src.pct(60) { on_values(src, ctx) } else { on_compositions(src, ctx) },
};

// ---- repeaters ----

#[derive(Clone, Debug)]
enum T {
    S(Shape),
    G(Vec<T>, Option<Xf>),
    R(Rep),
}

fn tree(g: &mut Gen, depth: usize, reps: &mut usize, trims: bool) -> Vec<T> {
    let n = g.s.count(1, 3, 5);
    let solid = |t: &T| matches!(t, T::S(Shape::Rect { .. } | Shape::Ell { .. } | Shape::Star(_) | Shape::Path(_)));
    let mut out: Vec<T> = vec![];
    for _ in 0..n {
        out.push(match g.s.below(10) {
            0 | 1 if depth > 0 => {
                let v = tree(g, depth - 1, reps, trims);
                T::G(v, if g.s.pct(60) { Some(g.xf()) } else { None })
            }
            2 | 3 | 4 if *reps > 0 && (out.iter().any(solid) || !trims && g.s.pct(20)) => {
                *reps -= 1;
                T::R(repeater(g, trims))
            }
            5 if trims => T::S(g.trim()),
            6 | 7 => T::S(g.style()),
            _ => T::S(g.shape(0)),
        });
    }
    if *reps > 0 && out.iter().any(solid) && g.s.pct(50) {
        *reps -= 1;
        if g.s.pct(60) {
            let s = g.style();
            out.push(T::S(s));
        }
        out.push(T::R(repeater(g, trims)));
    }
    if g.s.pct(50) {
        let s = g.style();
        out.push(T::S(s));
    }
    out
}
fn repeater(g: &mut Gen, trims: bool) -> Rep {
    let mut r = Rep::generate(g);
    if trims {
        // there is a copy, and none stays in place
        r.copies = Anim::Static(g.s.int(1, 4) as f64);
        r.offset = Anim::Static(g.s.pick(&[0.5, -2.5, 1.25]));
        r.scale = Anim::Static(g.s.pick(&[[100.0, 100.0], [80.0, 120.0]]));
        r.pos = Anim::Static([g.s.int(3, 50) as f64, g.s.int(-50, 50) as f64]);
    }
    r
}
fn to_model(v: &[T]) -> Vec<model::Shape> {
    v.iter()
        .filter_map(|t| match t {
            T::S(s) => tm::shape(s),
            T::G(v, x) => Some(model::Shape::Group(to_model(v), tm::group_xf(x))),
            T::R(r) => Some(model::Shape::Repeater(r.to_model().into_model())),
        })
        .collect()
}
fn visit_tree(v: &mut [T], look: &mut dyn Visit) {
    for t in v {
        match t {
            T::S(s) => v_shape(s, look),
            T::G(v, x) => {
                visit_tree(v, look);
                if let Some(x) = x {
                    v_xf(x, look)
                }
            }
            T::R(r) => r.visit(look),
        }
    }
}
#[derive(Default)]
struct Expansion {
    descending: bool,
    repeated: usize,
    unclear: bool,
    size: usize,
}
/// The shapes at a frame with every copy spelled out.
fn expand(v: &[T], f: f64, e: &mut Expansion) -> Vec<Shape> {
    let mut out: Vec<Shape> = vec![];
    for t in v {
        match t {
            T::S(s) => out.push(s.clone()),
            T::G(v, x) => out.push(Shape::Group { items: expand(v, f, e), xf: x.clone(), xf_at: usize::MAX }),
            T::R(r) => {
                let items = std::mem::take(&mut out);
                let (n, unclear) = copies(r, f);
                let n = n as usize;
                let (a, p, s) = (eval(&r.anchor, f), eval(&r.pos, f), eval(&r.scale, f));
                let (so, eo) = (eval(&r.so, f), eval(&r.eo, f));
                // a factor near zero has no usable negative power
                e.unclear |= unclear || s[0].abs() < 5.0 || s[1].abs() < 5.0 || so > 100.0 || eo > 100.0;
                e.repeated = e.repeated.max(n * !items.is_empty() as usize);
                let st = |v| Some(Anim::Static(v));
                for k in 0..n {
                    let i = if e.descending { n - 1 - k } else { k };
                    let t = eval(&r.offset, f) + i as f64;
                    let o = if n > 1 { so + (eo - so) * i as f64 / n as f64 } else { so };
                    let xf = Xf {
                        a: st_v2(a),
                        p: Pos::Vec(Anim::Static([t * p[0] + a[0], t * p[1] + a[1]])),
                        s: st_v2([(s[0] / 100.0).powf(t) * 100.0, (s[1] / 100.0).powf(t) * 100.0]),
                        r: Some(Rot::Plain(Anim::Static(t * eval(&r.rot, f)))),
                        sk: None,
                        sa: None,
                        o: st(o.max(0.0)),
                    };
                    e.size += count(&items);
                    out.push(Shape::Group { items: items.clone(), xf: Some(xf), xf_at: usize::MAX });
                    if e.size > 3000 {
                        return out;
                    }
                }
            }
        }
    }
    out
}
fn st_v2(v: V2) -> Option<Anim<V2>> {
    Some(Anim::Static(v))
}
fn count(v: &[Shape]) -> usize {
    v.iter().map(|s| if let Shape::Group { items, .. } = s { count(items) } else { 1 }).sum()
}

pub const P26: Check = Check {
    id: "P26",
    quick: 24_000,
    thorough: 1_200_000,
    rule: "a case counts when a repeater makes at least two copies of something and something is painted; distinct by the shape tree",
    assumptions: &[
        "up to 4 copies per repeater and 4 repeaters, powers of factors of 0.2 to 1.8 (negative ones with whole exponents only), opacities up to 100",
        "copies may be stacked in ascending or descending order, the same one throughout",
        "with trims the oracle is the library's own rendering of the copies written out by hand, otherwise the reference renderer",
    ],
    run: |src, ctx| {
        let trims = src.pct(20);
        let mut prof = Prof {
            layers: (1, 1, 3),
            anim: src.pick(&[0, 0, 30]),
            overshoot: 0,
            ind: 80,
            parent: 20,
            mask: 10,
            xf: src.pick(&[0, 40]),
            split: 10,
            skew: 10,
            opacity: src.pick(&[0, 60]),
            shapes: [0, 30, 20, 10, 30, 0, 0, 0, 0, 0, 0],
            uniform: true,
            ..Prof::default()
        };
        let mut comp = r#gen::comp(src, &prof);
        prof.shapes = [0, 30, 20, 10, 30, 20, 20, 8, 5, 0, 0];
        let mut trees = vec![];
        let mut look = Look::default();
        look.times = r#gen::all_times(&comp);
        for l in &comp.layers {
            let mut g = Gen { s: src, p: &prof };
            let mut reps = g.s.usize(1, 4);
            let v = matches!(l.kind, Kind::Shape(_)).then(|| tree(&mut g, 3, &mut reps, trims));
            trees.push(v);
        }
        let mut hand = tm::comp(&comp);
        for (l, t) in hand.layers.iter_mut().zip(&mut trees) {
            if let Some(t) = t
                && matches!(l.content, model::Content::Shape(_))
            {
                visit_tree(t, &mut look);
                l.content = model::Content::Shape(to_model(t));
            }
        }
        look.times.sort_by(f64::total_cmp);
        look.times.dedup();
        ctx.input(format!("{trees:?}"));
        ctx.tag(if trims { "with-trims" } else { "without-trims" });
        for _ in 0..3 {
            let f = r#gen::frame(src, &look.times, false);
            let (xf, a) = (r#gen::affine(src), alpha(src));
            let mut problems = vec![];
            let mut act = None;
            for descending in [false, true] {
                let mut e = Expansion { descending, ..Default::default() };
                for (l, t) in comp.layers.iter_mut().zip(&trees) {
                    if let (Kind::Shape(v), Some(t)) = (&mut l.kind, t) {
                        *v = expand(t, f, &mut e);
                    }
                }
                if e.unclear || e.size > 3000 {
                    ctx.tag("frame-skipped");
                    problems.clear();
                    break;
                }
                let (exp, stats) = expected(&comp, f, xf, a);
                if stats.ambiguous {
                    problems.clear();
                    break;
                }
                let act = act.get_or_insert_with(|| rend(&hand, f, xf, a));
                ctx.nontrivial |= e.repeated >= 2 && stats.draws > 0;
                let seen = |v: &[Op]| v.iter().filter(|o| !cmp::transparent(o)).cloned().collect::<Vec<_>>();
                let m = if trims {
                    let written = rend(&tm::comp(&comp), f, xf, a);
                    close_ops(&seen(&written), &seen(act), 1e-6, 1.0).err()
                } else {
                    // what cannot be seen may be left out
                    let unseen = |e: &E| match e {
                        E::Draw(d) => d.alpha * if let EBrush::Grad { alpha, .. } = &d.brush { alpha.iter().fold(0.0f64, |m, a| m.max(a.1)) } else { 1.0 } < 1e-6,
                        _ => false,
                    };
                    let exp: Vec<E> = exp.iter().filter(|e| !unseen(e)).cloned().collect();
                    cmp::compare(&exp, &seen(act), TOL).mis.first().map(|m| format!("{:?}: {} (call {})", m.cat, m.msg, m.act))
                };
                match m {
                    None => {
                        problems.clear();
                        break;
                    }
                    Some(m) => problems.push(m),
                }
            }
            if let Some(m) = problems.first() {
                ctx.note(format!("frame {f}, caller transform {:?}, opacity {a}", xf.as_coeffs()));
                ctx.note(format!("recorded calls:\n{}", show(&act.unwrap())));
                return fail(format!("at frame {f}: {m}"));
            }
        }
        Ok(())
    },
};
