//! Properties about single renderings and pairs of renderings: termination and finiteness, call protocol, purity,
//! caller transform and opacity, equivalent spellings, relative time.

use super::common::*;
use crate::mutate;
use peniko::Brush;

const DOCS: &[&str] = &["documents come from the harness's generator: up to 10 layers per array, nesting up to 5, coordinates within 600 units unless stated"];

/// How many layers a rendering may visit, whatever the frame; None when above the budget.
pub fn expansion(c: &Comp, budget: usize) -> Option<usize> {
    fn set(c: &Comp, ls: &[Layer], used: &mut Vec<String>, budget: usize) -> Option<usize> {
        let ms = mattes(ls);
        let mut own = vec![];
        for l in ls {
            let mut n = 1;
            if let Kind::Precomp { ref_id, .. } = &l.kind
                && !used.contains(ref_id)
                && let Some(inner) = c.asset(ref_id)
            {
                used.push(ref_id.clone());
                n += set(c, inner, used, budget)?;
                used.pop();
            }
            if n > budget {
                return None;
            }
            own.push(n);
        }
        fn cost(k: usize, own: &[usize], ms: &[Option<usize>], chain: &mut Vec<usize>) -> usize {
            let mut n = own[k];
            if let Some(j) = ms[k]
                && j != k
                && !chain.contains(&j)
            {
                chain.push(k);
                n += cost(j, own, ms, chain);
                chain.pop();
            }
            n
        }
        let mut total = 0;
        for k in 0..ls.len() {
            total += cost(k, &own, &ms, &mut vec![]);
        }
        if total > budget { None } else { Some(total) }
    }
    set(c, &c.layers, &mut vec![], budget)
}

/// Every number the sink is told.
pub fn non_finite(op: &Op) -> Option<String> {
    let bad = |x: f64| !x.is_finite();
    let xf = |x: &Affine| x.as_coeffs().iter().any(|v| bad(*v));
    let path = |p: &[PathEl]| {
        p.iter().any(|e| match e {
            PathEl::MoveTo(a) | PathEl::LineTo(a) => bad(a.x) || bad(a.y),
            PathEl::QuadTo(a, b) => [a, b].iter().any(|p| bad(p.x) || bad(p.y)),
            PathEl::CurveTo(a, b, c) => [a, b, c].iter().any(|p| bad(p.x) || bad(p.y)),
            PathEl::ClosePath => false,
        })
    };
    let what = match op {
        Op::Layer { alpha, xf: x, path: p, .. } => {
            if bad(*alpha as f64) { "layer opacity" } else if xf(x) { "layer transform" } else if path(p) { "layer shape" } else { "" }
        }
        Op::Clip { xf: x, path: p } => {
            if xf(x) { "clip transform" } else if path(p) { "clip path" } else { "" }
        }
        Op::Draw { stroke, xf: x, brush, path: p } => {
            let br = match brush {
                Brush::Solid(c) => c.components.iter().any(|v| bad(*v as f64)),
                Brush::Gradient(g) => {
                    let k = match &g.kind {
                        peniko::GradientKind::Linear(l) => [l.start.x, l.start.y, l.end.x, l.end.y].iter().any(|v| bad(*v)),
                        peniko::GradientKind::Radial(r) => {
                            [r.start_center.x, r.start_center.y, r.end_center.x, r.end_center.y, r.start_radius as f64, r.end_radius as f64]
                                .iter()
                                .any(|v| bad(*v))
                        }
                        peniko::GradientKind::Sweep(_) => false,
                    };
                    k || g.stops.iter().any(|s| bad(s.offset as f64) || s.color.components.iter().any(|v| bad(*v as f64)))
                }
                Brush::Image(_) => false,
            };
            if xf(x) {
                "paint transform"
            } else if path(p) {
                "painted path"
            } else if stroke.as_ref().is_some_and(|s| bad(s.width) || bad(s.miter_limit)) {
                "stroke"
            } else if br {
                "brush"
            } else {
                ""
            }
        }
        _ => "",
    };
    if what.is_empty() { None } else { Some(format!("{what} is not finite: {}", op_text(op).chars().take(400).collect::<String>())) }
}

pub const P02: Check = Check {
    id: "P02",
    quick: 30_000,
    thorough: 1_200_000,
    rule: "a case counts when the document is accepted and some frame emits a paint or a mask clip; distinct by document text",
    assumptions: &[
        "documents come from the harness's generator with arbitrary (dangling, self-referential, cyclic) parent, matte and asset references, keyframes in any order, values of odd lengths and magnitudes up to 1e6",
        "documents whose acyclic expansion exceeds 4000 layers are left out: their cost is inherent",
        "termination is judged by a limit of 60 s per case",
    ],
    run: |src, ctx| {
        let mut prof = Prof::wild();
        prof.wide = src.pct(30);
        prof.parent = src.pick(&[35, 80]);
        prof.matte = src.pick(&[12, 60]);
        prof.tp = src.pick(&[30, 80]);
        prof.anim = src.pick(&[25, 60]);
        if src.pct(40) {
            prof.kinds = [40, 10, 45, 2, 3];
            prof.layers = (1, 3, 5);
            prof.assets = 3;
        }
        let mut comp = r#gen::comp(src, &prof);
        if src.pct(30) {
            let n = comp.layers.len();
            for k in 0..n {
                if src.pct(50) {
                    let sr = src.pick(&[0.0, -1.0, 1e-6, 1e5]);
                    comp.layers[k].sr = Some(sr);
                }
            }
        }
        if expansion(&comp, 4000).is_none() {
            ctx.tag("too-large");
            return Ok(());
        }
        let mut j = enc::encode(&comp, src, Extras::Full, 10);
        let edits = if src.pct(50) { src.usize(1, 4) } else { 0 };
        for _ in 0..edits {
            mutate::numeric(&mut j, src);
        }
        ctx.tag_if(edits > 0, "edited");
        let extreme = src.pct(15);
        if extreme {
            ctx.tag("extreme");
            for _ in 0..src.usize(1, 3) {
                mutate::extreme(&mut j, src);
            }
        }
        let text = j.text();
        ctx.input(text.clone());
        let Ok(c) = sut(|| Composition::from_slice(text.as_bytes())) else {
            ctx.tag("rejected");
            return Ok(());
        };
        let times = r#gen::all_times(&comp);
        for k in 0..4 {
            let huge = k == 3 && src.pct(30);
            let (f, xf, a) = if huge {
                let v = [f64::MAX, f64::MIN, 1e300, -1e18, 1e-300, 9.3e18];
                let m = src.pick(&v);
                (src.pick(&v), Affine::new([m, 1.0, -1.0, src.pick(&v), src.pick(&v), 0.0]), src.pick(&[1.0, 0.0, 1e-300, 0.5]))
            } else if src.pct(10) {
                (src.pick(&[-0.0, 1e6, -1e6, 123456.789]), r#gen::affine(src), alpha(src))
            } else {
                (r#gen::frame(src, &times, false), r#gen::affine(src), alpha(src))
            };
            let ops = rend(&c, f, xf, a);
            ctx.nontrivial |= ops.iter().filter(|o| matches!(o, Op::Draw { .. } | Op::Clip { .. })).count() > 1;
            if huge || extreme {
                continue;
            }
            for (k, op) in ops.iter().enumerate() {
                if let Some(m) = non_finite(op) {
                    ctx.note(format!("frame {f}"));
                    return fail(format!("at frame {f}: call {k}: {m}"));
                }
                if let Op::Draw { brush: Brush::Solid(c), .. } = op
                    && edits == 0
                    && !(-1e-6..=1.0 + 1e-6).contains(&c.components[3])
                {
                    return fail(format!("at frame {f}: call {k}: opacity {} is out of range", c.components[3]));
                }
            }
        }
        Ok(())
    },
};

fn protocol(ops: &[Op], w: usize, h: usize, xf: Affine) -> R {
    let Some(Op::Clip { xf: x, path }) = ops.first() else {
        return fail(format!("the first call is not a clip but {:?}", ops.first().map(op_text)));
    };
    let cs = contours(path);
    let rect = Outline::Rect { x: w as f64 / 2.0, y: h as f64 / 2.0, w: w as f64, h: h as f64, r: 0.0 };
    if !cmp::xf_close(x, &xf, 1e-12) || cs.len() != 1 || (w * h > 0 && matches(&rect, &cs[0], 1e-6).is_err()) {
        return fail(format!("the root clip is not 0,0..{w},{h} under the caller's transform: {}", op_text(&ops[0])));
    }
    #[derive(PartialEq, Clone, Copy)]
    enum M {
        Push,
        Group,
    }
    let mut st: Vec<M> = vec![];
    for (k, op) in ops.iter().enumerate() {
        if k > 0 && st.is_empty() {
            return fail(format!("call {k} lies outside the root clip: {}", op_text(op)));
        }
        match op {
            Op::Clip { .. } | Op::Layer { .. } => st.push(M::Push),
            Op::Begin { .. } => st.push(M::Group),
            Op::Draw { .. } => {
                if !st.contains(&M::Group) {
                    return fail(format!("call {k} paints outside of every layer group"));
                }
            }
            Op::Pop => match st.pop() {
                Some(M::Push) => {}
                Some(M::Group) => return fail(format!("call {k} pops a layer that was not pushed in its layer group")),
                None => return fail(format!("call {k} pops a layer that was not pushed")),
            },
            Op::End => match st.pop() {
                Some(M::Group) => {}
                Some(M::Push) => return fail(format!("call {k} ends a layer group in which a pushed layer was not popped")),
                None => return fail(format!("call {k} ends a layer group that was not begun")),
            },
        }
    }
    if !st.is_empty() {
        return fail(format!("{} pushes or groups are left open at the end", st.len()));
    }
    Ok(())
}

pub const P03: Check = Check {
    id: "P03",
    quick: 30_000,
    thorough: 1_200_000,
    rule: "a case counts when some frame has a matte, a mask or a nested layer group; distinct by document text",
    assumptions: DOCS,
    run: |src, ctx| {
        let mut prof = if src.pct(40) { Prof::wild() } else { Prof::all() };
        prof.matte = src.pick(&[12, 50]);
        prof.mask = src.pick(&[15, 50]);
        prof.tp = src.pick(&[20, 70]);
        prof.window = src.pick(&[10, 50]);
        prof.hidden = src.pick(&[5, 30]);
        prof.kinds = src.pick(&[[60, 10, 20, 5, 5], [40, 5, 55, 0, 0]]);
        prof.items = (0, 2, 5);
        let comp = r#gen::comp(src, &prof);
        if expansion(&comp, 4000).is_none() {
            ctx.tag("too-large");
            return Ok(());
        }
        let text = enc::encode(&comp, src, Extras::Meta, 5).text();
        ctx.input(text.clone());
        let Ok(c) = sut(|| Composition::from_slice(text.as_bytes())) else {
            ctx.tag("rejected");
            return Ok(());
        };
        let times = r#gen::all_times(&comp);
        for _ in 0..5 {
            let f = r#gen::frame(src, &times, false);
            let xf = r#gen::affine(src);
            let ops = rend(&c, f, xf, alpha(src));
            let pushes = ops.iter().filter(|o| matches!(o, Op::Layer { .. } | Op::Clip { .. })).count();
            ctx.nontrivial |= pushes > 1;
            if let Err(e) = protocol(&ops, comp.w, comp.h, xf) {
                ctx.note(format!("recorded calls:\n{}", show(&ops)));
                return fail(format!("at frame {f}: {}", e.msg));
            }
        }
        Ok(())
    },
};

// ---- purity ----

struct Job {
    comp: usize,
    f: f64,
    xf: Affine,
    a: f64,
}

pub const P21: Check = Check {
    id: "P21",
    quick: 12_000,
    thorough: 500_000,
    rule: "a case counts when at least two different requests that paint something are rendered through shared renderers; distinct by documents and requests",
    assumptions: DOCS,
    run: |src, ctx| {
        let mut prof = Prof::all();
        prof.layers = (1, 2, 4);
        prof.mask = src.pick(&[15, 50]);
        prof.matte = src.pick(&[10, 40]);
        prof.window = src.pick(&[20, 60]);
        prof.anim = src.pick(&[25, 60]);
        let n = src.usize(1, 2);
        let mut docs = vec![];
        let mut times = vec![];
        let mut input = String::new();
        for _ in 0..n {
            let c = r#gen::comp(src, &prof);
            let text = enc::encode(&c, src, Extras::Meta, 3).text();
            times.push(r#gen::all_times(&c));
            input += &text;
            input.push('\n');
            docs.push(import(&text)?);
        }
        ctx.input(input);
        let before: Vec<String> = docs.iter().map(|d| format!("{d:?}")).collect();
        let m = src.usize(2, 5);
        let mut jobs: Vec<Job> = vec![];
        for _ in 0..m {
            let k = src.usize(0, n - 1);
            let f = if src.pct(10) { 5000.0 } else { r#gen::frame(src, &times[k], false) };
            let same = !jobs.is_empty() && src.pct(30);
            let (f, xf, a) = if same {
                let j = &jobs[src.usize(0, jobs.len() - 1)];
                // the same request but for one thing
                match src.below(3) {
                    0 => (j.f, j.xf, alpha(src)),
                    1 => (j.f, r#gen::affine(src), j.a),
                    _ => (f, j.xf, j.a),
                }
            } else {
                (f, r#gen::affine(src), alpha(src))
            };
            jobs.push(Job { comp: k, f, xf, a });
        }
        let fresh: Vec<Vec<Op>> = jobs.iter().map(|j| rend(&docs[j.comp], j.f, j.xf, j.a)).collect();
        ctx.nontrivial = fresh.iter().filter(|o| o.iter().any(|o| matches!(o, Op::Draw { .. }))).count() >= 2;
        let mut rs = [Renderer::new(), Renderer::default()];
        let steps = src.usize(2, 10);
        let clone = src.pct(30);
        let copies: Vec<Composition> = if clone { docs.clone() } else { vec![] };
        for s in 0..steps {
            let k = src.usize(0, jobs.len() - 1);
            let r = src.usize(0, 1);
            let j = &jobs[k];
            let use_copy = clone && src.pct(50);
            let c = if use_copy { &copies[j.comp] } else { &docs[j.comp] };
            // the sink may hold something already
            let prefix = if src.pct(30) { fresh[src.usize(0, jobs.len() - 1)].clone() } else { vec![] };
            let n = prefix.len();
            let ops = sut(|| {
                let mut rec = Rec::new();
                rec.ops = prefix;
                rs[r].append(c, j.f, j.xf, j.a, &mut rec);
                rec.ops
            });
            if let Err(e) = same_ops(&ops[n..], &fresh[k]) {
                return fail(format!("step {s} (renderer {r}, document {}, frame {}, sink with {n} earlier calls) differs from a fresh rendering: {e}", j.comp, j.f));
            }
        }
        if src.pct(15) {
            ctx.tag("threads");
            let outs: Vec<Vec<std::thread::Result<Vec<Op>>>> = std::thread::scope(|sc| {
                let hs: Vec<_> = (0..3)
                    .map(|t| {
                        let (docs, jobs) = (&docs, &jobs);
                        sc.spawn(move || {
                            let mut r = Renderer::new();
                            (0..jobs.len())
                                .map(|i| {
                                    let j = &jobs[(i + t) % jobs.len()];
                                    let r = &mut r;
                                    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| render_with(r, &docs[j.comp], j.f, j.xf, j.a)))
                                })
                                .collect()
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect()
            });
            for (t, out) in outs.into_iter().enumerate() {
                for (i, ops) in out.into_iter().enumerate() {
                    let k = (i + t) % jobs.len();
                    let Ok(ops) = ops else { return fail(format!("rendering frame {} on another thread panicked", jobs[k].f)) };
                    if let Err(e) = same_ops(&ops, &fresh[k]) {
                        return fail(format!("thread {t}, frame {}: differs from a rendering alone: {e}", jobs[k].f));
                    }
                }
            }
        }
        for (k, j) in jobs.iter().enumerate() {
            if let Err(e) = same_ops(&rend(&docs[j.comp], j.f, j.xf, j.a), &fresh[k]) {
                return fail(format!("a fresh renderer repeats frame {} differently after other renderings: {e}", j.f));
            }
        }
        for (k, d) in docs.iter().enumerate() {
            if format!("{d:?}") != before[k] {
                return fail(format!("rendering changed composition {k}"));
            }
        }
        Ok(())
    },
};

// ---- pairs of renderings ----

fn num_close(a: f64, b: f64, tol: f64) -> bool {
    (a - b).abs() <= tol * (1.0 + a.abs().max(b.abs()))
}
/// Equal point by point or, where curves approximate circles with a number of pieces that depends on the size, as outlines.
fn path_close(a: &[PathEl], b: &[PathEl], tol: f64) -> bool {
    if path_same(a, b, tol) || path_same(&without_specks(a, tol), &without_specks(b, tol), tol) {
        return true;
    }
    let (ca, cb) = (contours(a), contours(b));
    ca.len() == cb.len()
        && ca.iter().zip(&cb).all(|(x, y)| {
            let curved = |c: &Contour| c.segs.iter().any(|s| matches!(s, Seg::Cubic(_)));
            let (p, q) = (x.polyline(24), y.polyline(24));
            if x.segs.len() == y.segs.len() && !curved(x) {
                return path_same(a, b, tol);
            }
            let (lo, hi) = p.iter().fold((f64::MAX, f64::MIN), |(l, h), p| (l.min(p.x.min(p.y)), h.max(p.x.max(p.y))));
            let t = (2e-3 * (hi - lo)).clamp(1e-6, 0.15);
            curved(x) && curved(y) && x.closed == y.closed
                && p.iter().all(|p| dist_polyline(*p, &q) <= t)
                && q.iter().all(|q| dist_polyline(*q, &p) <= t)
        })
}
/// The path without the segments too short to tell from a point, such as a trim leaves when it ends at a vertex.
fn without_specks(p: &[PathEl], tol: f64) -> Vec<PathEl> {
    let s = tol * p.iter().fold(1.0f64, |m, e| m.max(e.end_point().map(|p| p.x.abs().max(p.y.abs())).unwrap_or(0.0)));
    let mut out: Vec<PathEl> = vec![];
    let mut at = Point::ZERO;
    for e in p {
        let speck = match e {
            PathEl::LineTo(a) => at.distance(*a) <= s,
            PathEl::CurveTo(a, b, c) => [a, b, c].iter().all(|p| at.distance(**p) <= s),
            _ => false,
        };
        if speck {
            continue;
        }
        at = e.end_point().unwrap_or(at);
        if matches!(e, PathEl::MoveTo(_)) && matches!(out.last(), Some(PathEl::MoveTo(_))) {
            out.pop();
        }
        out.push(*e);
    }
    if matches!(out.last(), Some(PathEl::MoveTo(_))) {
        out.pop();
    }
    out
}
fn path_same(a: &[PathEl], b: &[PathEl], tol: f64) -> bool {
    let s = a.iter().chain(b).fold(1.0f64, |m, e| m.max(e.end_point().map(|p| p.x.abs().max(p.y.abs())).unwrap_or(0.0)));
    let p = |a: &Point, b: &Point| (a.x - b.x).abs() <= tol * s && (a.y - b.y).abs() <= tol * s;
    a.len() == b.len()
        && a.iter().zip(b).all(|(x, y)| match (x, y) {
            (PathEl::MoveTo(a), PathEl::MoveTo(b)) | (PathEl::LineTo(a), PathEl::LineTo(b)) => p(a, b),
            (PathEl::QuadTo(a, b), PathEl::QuadTo(c, d)) => p(a, c) && p(b, d),
            (PathEl::CurveTo(a, b, c), PathEl::CurveTo(d, e, f)) => p(a, d) && p(b, e) && p(c, f),
            (PathEl::ClosePath, PathEl::ClosePath) => true,
            _ => false,
        })
}
/// Equal up to rounding, the second rendering's paint opacities being `scale` times the first's.
pub fn close_ops(a: &[Op], b: &[Op], tol: f64, scale: f64) -> Result<(), String> {
    let col = |x: &[f32; 4], y: &[f32; 4]| {
        (0..3).all(|k| num_close(x[k] as f64, y[k] as f64, 1e-4)) && (x[3] as f64 * scale - y[3] as f64).abs() <= 1e-4 * (1.0 + (y[3] as f64).abs())
    };
    for (k, (x, y)) in a.iter().zip(b).enumerate() {
        let ok = match (x, y) {
            (Op::Layer { blend: b1, alpha: a1, xf: x1, path: p1 }, Op::Layer { blend: b2, alpha: a2, xf: x2, path: p2 }) => {
                b1 == b2 && (a1 - a2).abs() < 1e-6 && cmp::xf_close(x1, x2, tol) && path_close(p1, p2, tol)
            }
            (Op::Clip { xf: x1, path: p1 }, Op::Clip { xf: x2, path: p2 }) => cmp::xf_close(x1, x2, tol) && path_close(p1, p2, tol),
            (Op::Draw { stroke: s1, xf: x1, brush: b1, path: p1 }, Op::Draw { stroke: s2, xf: x2, brush: b2, path: p2 }) => {
                let st = match (s1, s2) {
                    (None, None) => true,
                    (Some(s), Some(t)) => {
                        num_close(s.width, t.width, tol)
                            && num_close(s.miter_limit, t.miter_limit, tol)
                            && s.join == t.join
                            && s.start_cap == t.start_cap
                            && s.end_cap == t.end_cap
                            && s.dash_pattern == t.dash_pattern
                    }
                    _ => false,
                };
                let br = match (b1, b2) {
                    (Brush::Solid(c), Brush::Solid(d)) => col(&c.components, &d.components),
                    (Brush::Gradient(g), Brush::Gradient(h)) => {
                        let kind = match (&g.kind, &h.kind) {
                            (peniko::GradientKind::Linear(l), peniko::GradientKind::Linear(m)) => {
                                path_close(&[PathEl::MoveTo(l.start), PathEl::LineTo(l.end)], &[PathEl::MoveTo(m.start), PathEl::LineTo(m.end)], tol)
                            }
                            (peniko::GradientKind::Radial(l), peniko::GradientKind::Radial(m)) => {
                                path_close(&[PathEl::MoveTo(l.start_center), PathEl::LineTo(l.end_center)], &[PathEl::MoveTo(m.start_center), PathEl::LineTo(m.end_center)], tol)
                                    && num_close(l.start_radius as f64, m.start_radius as f64, 1e-5)
                                    && num_close(l.end_radius as f64, m.end_radius as f64, 1e-5)
                            }
                            (a, b) => a == b,
                        };
                        kind && g.extend == h.extend
                            && g.stops.len() == h.stops.len()
                            && g.stops.iter().zip(h.stops.iter()).all(|(s, t)| (s.offset - t.offset).abs() < 1e-4 && col(&s.color.components, &t.color.components))
                    }
                    (a, b) => a == b,
                };
                st && br && cmp::xf_close(x1, x2, tol) && path_close(p1, p2, tol)
            }
            _ => op_eq(x, y),
        };
        if !ok {
            return Err(format!("call {k} differs:\n  {}\n  {}", op_text(x), op_text(y)));
        }
    }
    if a.len() != b.len() {
        return Err(format!("{} versus {} calls", a.len(), b.len()));
    }
    Ok(())
}

pub const P23: Check = Check {
    id: "P23",
    quick: 24_000,
    thorough: 900_000,
    rule: "a case counts when a frame that paints something is rendered under a non-identity transform; distinct by document text",
    assumptions: DOCS,
    run: |src, ctx| {
        let mut prof = Prof::all();
        prof.shapes[9] = src.pick(&[0, 15]);
        prof.matte = src.pick(&[0, 12, 40]);
        prof.mask = src.pick(&[0, 15, 40]);
        let comp = r#gen::comp(src, &prof);
        let text = enc::encode(&comp, src, Extras::Meta, 5).text();
        ctx.input(text.clone());
        let c = import(&text)?;
        let times = r#gen::all_times(&comp);
        for _ in 0..4 {
            let f = r#gen::frame(src, &times, false);
            let base = rend(&c, f, Affine::IDENTITY, 1.0);
            let t = match src.below(8) {
                // singular, tiny and huge ones too
                0 => Affine::new([0.0, 0.0, 0.0, 2.0, 10.0, 0.0]),
                1 => Affine::new([1e-7, 0.0, 0.0, 1e-7, 0.0, 0.0]),
                2 => Affine::new([1e5, 0.0, 0.0, -1e5, 1e6, 0.0]),
                _ => r#gen::affine(src),
            };
            let a = if src.pct(60) { src.grid(0.001, 1.0, 0.001) } else { 1.0 };
            let got = rend(&c, f, t, a);
            ctx.nontrivial |= t != Affine::IDENTITY && base.iter().any(|o| matches!(o, Op::Draw { .. }));
            let want: Vec<Op> = base
                .into_iter()
                .map(|mut o| {
                    match &mut o {
                        Op::Layer { xf, .. } | Op::Clip { xf, .. } | Op::Draw { xf, .. } => *xf = t * *xf,
                        _ => {}
                    }
                    o
                })
                .collect();
            if let Err(e) = close_ops(&want, &got, 1e-8, a) {
                ctx.note(format!("frame {f} transform {:?} opacity {a}", t.as_coeffs()));
                return fail(format!("at frame {f} under {:?} with opacity {a}: {e}", t.as_coeffs()));
            }
        }
        Ok(())
    },
};

pub const P24: Check = Check {
    id: "P24",
    quick: 20_000,
    thorough: 800_000,
    rule: "a case counts when the document is accepted and paints something; distinct by document text",
    assumptions: &[
        "unknown keys are made-up names that the format does not use; only properties the format defines as real numbers are respelled between integer and decimal form",
    ],
    run: |src, ctx| {
        let mut prof = Prof::all();
        prof.layers = (1, 3, 6);
        prof.matte = src.pick(&[12, 40]);
        prof.split = src.pick(&[15, 50]);
        let comp = r#gen::comp(src, &prof);
        let defect = src.pct(12);
        let (mut a, mut b);
        if defect {
            // both spellings carry the same defect
            a = enc::encode(&comp, src, Extras::Full, 8);
            mutate::any(&mut a, src);
            b = a.clone();
            ctx.tag("with-defect");
        } else {
            let (ea, rb) = (src.pick(&[Extras::None, Extras::Meta]), src.pick(&[0, 10, 40]));
            a = enc::encode(&comp, src, ea, 5);
            b = enc::encode(&comp, src, Extras::Meta, rb);
            if src.pct(50) {
                // same values, redundant parts dropped at random
                mutate::drop_redundant(&mut b, src);
            }
        }
        let n = src.pick(&[0u32, 3, 20]);
        mutate::respell(&mut b, src, n);
        let (ta, tb) = (a.text(), b.text_styled(src));
        ctx.input(format!("{ta}\n{tb}"));
        let ca = sut(|| Composition::from_slice(ta.as_bytes()));
        let cb = sut(|| Composition::from_slice(tb.as_bytes()));
        let (ca, cb) = match (ca, cb) {
            (Ok(a), Ok(b)) => (a, b),
            (Err(_), Err(_)) if defect => {
                ctx.tag("both-rejected");
                return Ok(());
            }
            (Err(a), Err(_)) => return fail(format!("a valid document is rejected: {a}")),
            (Err(e), Ok(_)) => return fail(format!("one spelling is rejected ({e}), the other accepted")),
            (Ok(_), Err(e)) => return fail(format!("the second spelling is rejected ({e}), the first accepted")),
        };
        let times = r#gen::all_times(&comp);
        for _ in 0..3 {
            let f = r#gen::frame(src, &times, false);
            let (oa, ob) = (rend(&ca, f, Affine::IDENTITY, 1.0), rend(&cb, f, Affine::IDENTITY, 1.0));
            ctx.nontrivial |= oa.iter().any(|o| matches!(o, Op::Draw { .. }));
            if let Err(e) = if defect { same_ops(&oa, &ob) } else { close_ops(&oa, &ob, 1e-9, 1.0) } {
                return fail(format!("at frame {f} the two spellings render differently: {e}"));
            }
        }
        Ok(())
    },
};

// ---- time ----

fn keys_of<T>(a: &mut Anim<T>, d: f64) {
    if let Anim::Keys(k) = a {
        k.iter_mut().for_each(|k| k.t += d)
    }
}
/// Visits every animated value; the closure gets a mutable reference to each kind.
pub trait Visit {
    fn num(&mut self, a: &mut Anim<f64>);
    fn v2(&mut self, a: &mut Anim<V2>);
    fn col(&mut self, a: &mut Anim<[f64; 3]>);
    fn vec(&mut self, a: &mut Anim<Vec<f64>>);
    fn path(&mut self, p: &mut PathVal);
}
pub fn v_xf(x: &mut Xf, v: &mut dyn Visit) {
    if let Some(a) = &mut x.a {
        v.v2(a)
    }
    match &mut x.p {
        Pos::Vec(a) => v.v2(a),
        Pos::Split(a, b) => {
            v.num(a);
            v.num(b)
        }
    }
    if let Some(a) = &mut x.s {
        v.v2(a)
    }
    match &mut x.r {
        Some(Rot::Plain(a)) | Some(Rot::Split(a)) => v.num(a),
        None => {}
    }
    for a in [&mut x.sk, &mut x.sa, &mut x.o].into_iter().flatten() {
        v.num(a)
    }
}
pub fn v_grad(g: &mut Grad, v: &mut dyn Visit) {
    v.v2(&mut g.s);
    v.v2(&mut g.e);
    v.vec(&mut g.stops);
}
pub fn v_shape(s: &mut Shape, v: &mut dyn Visit) {
    match s {
        Shape::Group { items, xf, .. } => {
            items.iter_mut().for_each(|s| v_shape(s, v));
            if let Some(x) = xf {
                v_xf(x, v)
            }
        }
        Shape::Rect { p, s, r } => {
            v.v2(p);
            v.v2(s);
            v.num(r)
        }
        Shape::Ell { p, s } => {
            v.v2(p);
            v.v2(s)
        }
        Shape::Star(s) => {
            v.v2(&mut s.p);
            for a in [&mut s.or, &mut s.os, &mut s.r, &mut s.pt].into_iter().chain(&mut s.ir).chain(&mut s.is) {
                v.num(a)
            }
        }
        Shape::Path(p) => v.path(p),
        Shape::Fill { c, o } => {
            v.col(c);
            v.num(o)
        }
        Shape::Stroke { c, o, st } => {
            v.col(c);
            v.num(o);
            v.num(&mut st.w)
        }
        Shape::GFill { g, o } => {
            v_grad(g, v);
            v.num(o)
        }
        Shape::GStroke { g, o, st } => {
            v_grad(g, v);
            v.num(o);
            v.num(&mut st.w)
        }
        Shape::Trim { s, e, o } => {
            v.num(s);
            v.num(e);
            v.num(o)
        }
        Shape::Ignored(_) => {}
        Shape::Hidden(s) => v_shape(s, v),
    }
}
pub fn v_layer(l: &mut Layer, v: &mut dyn Visit) {
    v_xf(&mut l.xf, v);
    for m in l.masks.iter_mut().flatten() {
        if let Some(p) = &mut m.path {
            v.path(p)
        }
        if let Some(o) = &mut m.o {
            v.num(o)
        }
    }
    if let Kind::Shape(s) = &mut l.kind {
        s.iter_mut().for_each(|s| v_shape(s, v))
    }
}

struct Shift(f64);
impl Visit for Shift {
    fn num(&mut self, a: &mut Anim<f64>) {
        keys_of(a, self.0)
    }
    fn v2(&mut self, a: &mut Anim<V2>) {
        keys_of(a, self.0)
    }
    fn col(&mut self, a: &mut Anim<[f64; 3]>) {
        keys_of(a, self.0)
    }
    fn vec(&mut self, a: &mut Anim<Vec<f64>>) {
        keys_of(a, self.0)
    }
    fn path(&mut self, p: &mut PathVal) {
        if let PathVal::Keys(k) = p {
            k.iter_mut().for_each(|k| k.t += self.0)
        }
    }
}

/// Static values become keyframes that all carry the value.
pub struct Constant<'a, 'l> {
    pub s: &'a mut Src<'l>,
    pub n: usize,
}
impl Constant<'_, '_> {
    fn keys<T: Clone>(&mut self, a: &mut Anim<T>) {
        if let Anim::Static(v) = a
            && self.s.pct(40)
        {
            self.n += 1;
            let v = v.clone();
            let p = Prof::default();
            let mut g = Gen { s: self.s, p: &p };
            let ts = g.times();
            *a = Anim::Keys(ts.into_iter().map(|t| Key { t, v: v.clone(), ease: g.ease(), hold: g.s.pct(20) }).collect());
        }
    }
}
impl Visit for Constant<'_, '_> {
    fn num(&mut self, a: &mut Anim<f64>) {
        self.keys(a)
    }
    fn v2(&mut self, a: &mut Anim<V2>) {
        self.keys(a)
    }
    fn col(&mut self, a: &mut Anim<[f64; 3]>) {
        self.keys(a)
    }
    fn vec(&mut self, a: &mut Anim<Vec<f64>>) {
        self.keys(a)
    }
    fn path(&mut self, p: &mut PathVal) {
        if let PathVal::Static(b) = p
            && !b.v.is_empty()
            && self.s.pct(40)
        {
            self.n += 1;
            let b = b.clone();
            let pr = Prof::default();
            let mut g = Gen { s: self.s, p: &pr };
            let ts = g.times();
            let m = ts.len();
            *p = PathVal::Keys(
                ts.into_iter()
                    .enumerate()
                    .map(|(k, t)| PKey {
                        t,
                        start: if k > 0 && k + 1 == m && g.s.pct(30) { None } else { Some(b.clone()) },
                        end: if k + 1 < m && g.s.pct(30) { Some(b.clone()) } else { None },
                        ease: g.ease(),
                        hold: g.s.pct(20),
                    })
                    .collect(),
            );
        }
    }
}

/// Linear segments get a keyframe on their line.
struct Refine<'a, 'l> {
    s: &'a mut Src<'l>,
    n: usize,
}
impl Refine<'_, '_> {
    fn keys<T: Clone>(&mut self, a: &mut Anim<T>, lerp: &dyn Fn(&T, &T, f64) -> T) {
        let Anim::Keys(ks) = a else { return };
        let mut k = 0;
        while k + 1 < ks.len() {
            let (x, y) = (&ks[k], &ks[k + 1]);
            if x.ease.is_none() && !x.hold && y.t - x.t > 1e-3 && self.s.pct(50) {
                let u = self.s.pick(&[0.5, 0.25, 0.75]);
                let key = Key { t: x.t + (y.t - x.t) * u, v: lerp(&x.v, &y.v, u), ease: None, hold: false };
                ks.insert(k + 1, key);
                self.n += 1;
                k += 1;
            }
            k += 1;
        }
    }
}
impl Visit for Refine<'_, '_> {
    fn num(&mut self, a: &mut Anim<f64>) {
        self.keys(a, &|a, b, u| a + (b - a) * u)
    }
    fn v2(&mut self, a: &mut Anim<V2>) {
        self.keys(a, &|a, b, u| [a[0] + (b[0] - a[0]) * u, a[1] + (b[1] - a[1]) * u])
    }
    fn col(&mut self, a: &mut Anim<[f64; 3]>) {
        self.keys(a, &|a, b, u| [0, 1, 2].map(|k| a[k] + (b[k] - a[k]) * u))
    }
    fn vec(&mut self, a: &mut Anim<Vec<f64>>) {
        self.keys(a, &|a, b, u| a.iter().zip(b).map(|(a, b)| a + (b - a) * u).collect())
    }
    fn path(&mut self, p: &mut PathVal) {
        let PathVal::Keys(ks) = p else { return };
        let mut k = 0;
        while k + 1 < ks.len() {
            let (x, y) = (ks[k].clone(), ks[k + 1].clone());
            let target = x.end.clone().or(y.start.clone());
            if x.ease.is_none()
                && !x.hold
                && y.t - x.t > 1e-3
                && let (Some(from), Some(to)) = (&x.start, target)
                && self.s.pct(50)
            {
                let u = self.s.pick(&[0.5, 0.25, 0.75]);
                let (a, b) = (crate::eval::full(from), crate::eval::full(&to));
                let mix = |p: &Vec<V2>, q: &Vec<V2>| -> Vec<V2> { p.iter().zip(q).map(|(p, q)| [p[0] + (q[0] - p[0]) * u, p[1] + (q[1] - p[1]) * u]).collect() };
                let mid = Bez { closed: a.closed, v: mix(&a.v, &b.v), i: mix(&a.i, &b.i), o: mix(&a.o, &b.o) };
                ks[k].end = Some(mid.clone());
                ks.insert(k + 1, PKey { t: x.t + (y.t - x.t) * u, start: Some(mid), end: Some(to), ease: None, hold: false });
                self.n += 1;
                k += 1;
            }
            k += 1;
        }
    }
}

pub const P25: Check = Check {
    id: "P25",
    quick: 20_000,
    thorough: 800_000,
    rule: "a case counts when the two documents differ and a compared frame paints something; distinct by document text",
    assumptions: &["times and stretches are dyadic so that shifted times are exact; frames at which a star's point count lies on a rounding edge are left out"],
    run: |src, ctx| {
        let mut prof = Prof::all();
        prof.dyadic = true;
        prof.layers = (1, 3, 6);
        prof.stretch = 60;
        prof.anim = src.pick(&[0, 30, 60]);
        prof.matte = src.pick(&[0, 12]);
        prof.overshoot = 0;
        let mode = src.below(3);
        if mode == 2 {
            prof.ease = 20;
            prof.hold = 10;
            prof.anim = 70;
            prof.uniform = true;
        }
        let comp = r#gen::comp(src, &prof);
        let mut other = comp.clone();
        let mut d = 0.0;
        let changed = match mode {
            0 => {
                ctx.tag("shift");
                d = src.grid(-200.0, 200.0, 0.25);
                other.ip += d;
                other.op += d;
                let mut v = Shift(d);
                for l in &mut other.layers {
                    v_layer(l, &mut v);
                    l.ip += d;
                    l.op += d;
                    if let Some(st) = &mut l.st {
                        *st += d;
                    }
                }
                d != 0.0
            }
            1 => {
                ctx.tag("constant");
                let mut v = Constant { s: src, n: 0 };
                each_layer(&mut other, &mut |l| v_layer(l, &mut v));
                v.n > 0
            }
            _ => {
                ctx.tag("refine");
                let mut v = Refine { s: src, n: 0 };
                each_layer(&mut other, &mut |l| v_layer(l, &mut v));
                v.n > 0
            }
        };
        let (a, b) = (enc::encode(&comp, src, Extras::Meta, 3).text(), enc::encode(&other, src, Extras::Meta, 3).text());
        ctx.input(format!("{a}\n{b}"));
        let (ca, cb) = (import(&a)?, import(&b)?);
        let times = r#gen::all_times(&comp);
        for _ in 0..5 {
            let f = r#gen::frame(src, &times, true);
            let (exp, stats) = expected(&comp, f, Affine::IDENTITY, 1.0);
            // a trim whose ends all but coincide leaves something or nothing
            let hair = |d: f64| d != 0.0 && d < 1e-6;
            let sliver = exp.iter().any(|e| match e {
                E::Draw(d) => d.parts.iter().any(|p| p.trims.iter().any(|t| hair((t.s - t.e).abs()) || hair((100.0 - (t.s - t.e).abs()).abs()))),
                _ => false,
            });
            if stats.ambiguous || sliver {
                continue;
            }
            let (oa, ob) = (rend(&ca, f, Affine::IDENTITY, 1.0), rend(&cb, f + d, Affine::IDENTITY, 1.0));
            ctx.nontrivial |= changed && oa.iter().any(|o| matches!(o, Op::Draw { .. }));
            // rounding may change a trimmed path: measured lengths of curves are exact to 0.1 only, and what ends
            // at a vertex or at the start of the outline may come in one piece or in two
            let trimmed = exp.iter().any(|e| matches!(e, E::Draw(d) if d.parts.iter().any(|p| !p.trims.is_empty())));
            let pathless = |v: &[Op]| -> Vec<Op> {
                let mut v = v.to_vec();
                for o in &mut v {
                    if let Op::Draw { path, .. } = o {
                        path.clear();
                    }
                }
                v
            };
            let mut r = close_ops(&oa, &ob, 1e-6, 1.0);
            if trimmed && r.is_err() {
                ctx.tag("paths-left-out");
                r = close_ops(&pathless(&oa), &pathless(&ob), 1e-6, 1.0);
            }
            if let Err(e) = r {
                let what = match mode {
                    0 => format!("the timeline shifted by {d} renders differently at frame {}", f + d),
                    1 => "replacing static values by constant keyframes changed the rendering".to_string(),
                    _ => "a keyframe on the line of a linear segment changed the rendering".to_string(),
                };
                return fail(format!("frame {f}: {what}: {e}"));
            }
        }
        Ok(())
    },
};
