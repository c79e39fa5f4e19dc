//! Trim paths: the trimmed rendering against the rendering of the same document without its trims.

use super::common::*;

/// Straight pieces each curve is divided into for measuring.
const N: usize = 96;

fn without_trims(c: &Comp) -> Comp {
    fn strip(v: &mut Vec<Shape>) {
        v.retain(|s| !matches!(s, Shape::Trim { .. }));
        for s in v {
            if let Shape::Group { items, .. } = s {
                strip(items)
            }
        }
    }
    let mut c = c.clone();
    each_layer(&mut c, &mut |l| {
        if let Kind::Shape(v) = &mut l.kind {
            strip(v)
        }
    });
    c
}

/// Contours of one painted compound path on a common length axis.
struct Axis {
    pts: Vec<Vec<Point>>,
    /// start of each contour on the axis, and the end
    at: Vec<f64>,
    curves: usize,
    /// by how much kurbo's lengths of the curves are wrong, beyond the accuracy asked for
    off: f64,
    /// how far the pieces may be from the curves
    sag: f64,
    size: f64,
}
impl Axis {
    fn new(cs: &[Contour], path: &[PathEl]) -> Axis {
        // straight curves are measured as curves too
        let curves = path.iter().filter(|e| matches!(e, PathEl::CurveTo(..) | PathEl::QuadTo(..))).count();
        let (mut off, mut sag, mut size) = (0.0, 0.0f64, 1.0f64);
        let mut pts = vec![];
        let mut at = vec![0.0];
        for c in cs {
            for s in &c.canon().segs {
                if let Seg::Cubic(c) = s {
                    off += length_error(c);
                    let d = |a: Point, b: Point, c: Point| (a.to_vec2() - 2.0 * b.to_vec2() + c.to_vec2()).hypot();
                    let second = 6.0 * d(c.p0, c.p1, c.p2).max(d(c.p1, c.p2, c.p3));
                    sag = sag.max(second / 8.0 / (N * N) as f64);
                }
            }
            let p = c.polyline(N);
            for q in &p {
                size = size.max(q.x.abs()).max(q.y.abs());
            }
            at.push(at.last().unwrap() + polyline_len(&p));
            pts.push(p);
        }
        Axis { pts, at, curves, off, sag, size }
    }
    /// The stretches of the contours within an interval.
    fn cut(&self, iv: (f64, f64)) -> Vec<Vec<Point>> {
        let mut out = vec![];
        for (k, p) in self.pts.iter().enumerate() {
            let (lo, hi) = ((iv.0 - self.at[k]).max(0.0), iv.1.min(self.at[k + 1]) - self.at[k]);
            if !(hi > lo) {
                continue;
            }
            let mut line = vec![];
            let mut pos = 0.0;
            for w in p.windows(2) {
                let l = w[0].distance(w[1]);
                let (a, b) = (lo.max(pos), hi.min(pos + l));
                if b > a && l > 0.0 {
                    if line.is_empty() {
                        line.push(w[0].lerp(w[1], (a - pos) / l));
                    }
                    line.push(w[0].lerp(w[1], (b - pos) / l));
                }
                pos += l;
            }
            if line.len() > 1 {
                out.push(line);
            }
        }
        out
    }
}

/// Near a cusp kurbo misses the accuracy it is asked for.
fn length_error(c: &kurbo::CubicBez) -> f64 {
    use kurbo::{ParamCurve, ParamCurveArclen};
    let mut worst = 0.0f64;
    let (mut exact, mut at) = (0.0, c.p0);
    let n = 8 * N;
    for k in 1..=n {
        let p = c.eval(k as f64 / n as f64);
        exact += at.distance(p);
        at = p;
        if k % N == 0 {
            worst = worst.max((c.subsegment(0.0..k as f64 / n as f64).arclen(0.1) - exact).abs());
        }
    }
    (worst - 0.1).max(0.0)
}

enum Extent {
    Nothing,
    All,
    Part(f64, f64),
    /// too close to a limit
    Unclear,
}
fn extent(t: &TrimAt) -> Extent {
    let (s, e) = (t.s.clamp(0.0, 100.0), t.e.clamp(0.0, 100.0));
    let (lo, hi) = if s <= e { (s, e) } else { (e, s) };
    let r = hi - lo;
    if r == 0.0 {
        Extent::Nothing
    } else if r == 100.0 {
        Extent::All
    } else if r < 1e-6 || r > 100.0 - 1e-6 {
        Extent::Unclear
    } else {
        let start = (lo / 100.0 + t.o / 360.0).rem_euclid(1.0);
        Extent::Part(start, start + r / 100.0)
    }
}

fn total(iv: &[(f64, f64)]) -> f64 {
    iv.iter().map(|i| i.1 - i.0).sum()
}
/// The parts of a list of intervals between two positions along it.
fn range_of(iv: &[(f64, f64)], a: f64, b: f64, out: &mut Vec<(f64, f64)>) {
    let mut pos = 0.0;
    for i in iv {
        let l = i.1 - i.0;
        let (lo, hi) = ((a - pos).max(0.0), (b - pos).min(l));
        if hi > lo {
            out.push((i.0 + lo, i.0 + hi));
        }
        pos += l;
    }
}

struct Want {
    iv: Vec<(f64, f64)>,
    slack: f64,
    /// some trim removed something
    partial: bool,
    /// contours no trim reaches
    free: Vec<usize>,
    untouched: bool,
    /// what lies just outside the ends of a trim's range, along what the trims before left
    fringe: Vec<(f64, f64)>,
}

/// What the trims leave of a compound path made of these parts.
fn wanted(ax: &Axis, parts: &[&EPart]) -> Option<Want> {
    let mut trims: Vec<TrimAt> = vec![];
    for p in parts {
        for t in &p.trims {
            if !trims.iter().any(|x| x.seq == t.seq) {
                trims.push(*t);
            }
        }
    }
    trims.sort_by_key(|t| t.seq);
    let mut w = Want { iv: vec![], slack: 0.0, partial: false, free: vec![], untouched: true, fringe: vec![] };
    let mut next = 0;
    for t in &trims {
        while next < parts.len() && parts[next].trims.iter().any(|x| x.seq == t.seq) {
            w.iv.push((ax.at[next], ax.at[next + 1]));
            next += 1;
        }
        if parts[next..].iter().any(|p| p.trims.iter().any(|x| x.seq == t.seq)) {
            return None; // reaches a later part only: not one outline for this trim
        }
        let len = total(&w.iv);
        // kurbo measures each curve to within 0.1
        w.slack += 3.0 * ax.off + if ax.curves > 0 { 0.1 * (2 * ax.curves + 2) as f64 } else { 0.0 } + 1e-6 * (len + ax.size);
        let mut out = vec![];
        match extent(t) {
            Extent::Unclear => return None,
            Extent::All => continue,
            Extent::Nothing => {}
            Extent::Part(a, b) => {
                for (lo, hi) in [(a * len - w.slack, a * len), (b * len, b * len + w.slack)] {
                    for turn in [-len, 0.0, len] {
                        range_of(&w.iv, lo + turn, hi + turn, &mut w.fringe);
                    }
                }
                range_of(&w.iv, a * len, b.min(1.0) * len, &mut out);
                if b > 1.0 {
                    range_of(&w.iv, 0.0, (b - 1.0) * len, &mut out);
                }
            }
        }
        w.iv = out;
        w.partial = true;
        w.untouched = false;
    }
    for k in next..parts.len() {
        w.iv.push((ax.at[k], ax.at[k + 1]));
        if w.partial {
            w.free.push(k);
        }
    }
    Some(w)
}

fn verdict(ax: &Axis, full: &[Contour], w: &Want, got: &[Contour]) -> Result<(), String> {
    let tol = 1e-5 * ax.size + 2.0 * ax.sag;
    let allowed: Vec<Vec<Point>> = w.iv.iter().chain(&w.fringe).flat_map(|i| ax.cut((i.0 - w.slack - tol, i.1 + w.slack + tol))).collect();
    for c in got {
        for s in &c.canon().segs {
            for k in 0..=6 {
                let p = s.at(k as f64 / 6.0);
                let d = allowed.iter().map(|l| dist_polyline(p, l)).fold(f64::INFINITY, f64::min);
                if !(d <= tol) {
                    return Err(format!("{p:?} is painted, {d} away from what the trim leaves"));
                }
            }
        }
    }
    let lines: Vec<Vec<Point>> = got.iter().map(|c| c.polyline(N)).collect();
    for i in &w.iv {
        for l in ax.cut((i.0 + w.slack + tol, i.1 - w.slack - tol)) {
            let step = (l.len() / 24).max(1);
            for p in l.iter().step_by(step).chain(l.last()) {
                let d = lines.iter().map(|l| dist_polyline(*p, l)).fold(f64::INFINITY, f64::min);
                if !(d <= 2.0 * tol) {
                    return Err(format!("{p:?} is not painted, the nearest paint is {d} away"));
                }
            }
        }
    }
    let (want, have) = (total(&w.iv), lines.iter().map(|l| polyline_len(l)).sum::<f64>());
    if !((want - have).abs() <= 2.0 * w.slack + 2.0 * tol) {
        return Err(format!("a length of {have} is left instead of {want}"));
    }
    let pieces: usize = w
        .iv
        .iter()
        .map(|i| {
            let (a, b) = (i.0 - w.slack - tol, i.1 + w.slack + tol);
            (0..full.len()).filter(|k| ax.at[*k] <= b && ax.at[k + 1] >= a).count()
        })
        .sum::<usize>()
        + w.fringe.iter().filter(|f| !w.iv.iter().any(|i| f.0 - w.slack <= i.1 && i.0 <= f.1 + w.slack)).count();
    let n = lines.iter().filter(|l| polyline_len(l) > tol).count();
    if n > pieces {
        return Err(format!("{n} separate pieces are left instead of {pieces}"));
    }
    for k in &w.free {
        let text = format!("{:?}", full[*k]);
        if !got.iter().any(|c| format!("{c:?}") == text) {
            return Err(format!("contour {k}, which the trim does not reach, is changed"));
        }
    }
    Ok(())
}

fn same_style(a: &Op, b: &Op) -> bool {
    let mut b = b.clone();
    if let (Op::Draw { path, .. }, Op::Draw { path: p, .. }) = (a, &mut b) {
        *p = path.clone();
        op_eq(a, &b)
    } else {
        false
    }
}

pub const P14: Check = Check {
    id: "P14",
    quick: 24_000,
    thorough: 800_000,
    rule: "a case counts when a trim takes something from a painted outline; distinct by document text",
    assumptions: &[
        "lengths are measured on 96 chords per curve and compared with a slack of 0.1 units per curve segment, the accuracy the renderer asks of its arc length routine; outlines of straight segments are compared to 1e-6",
        "start and end lie within 0 to 100 percent: beyond, and within 1e-6 of the limits, nothing is required",
        "the untrimmed outlines are taken from the rendering of the document without its trims, after it matched the reference renderer",
    ],
    run: |src, ctx| {
        let mut prof = Prof {
            layers: (1, 1, 2),
            shapes: match src.below(4) {
                0 => [0, 15, 0, 0, 60, 10, 10, 0, 0, 40, 0],
                1 => [25, 20, 10, 10, 20, 15, 10, 0, 0, 30, 3],
                2 => [0, 20, 20, 20, 0, 5, 5, 0, 0, 40, 0],
                _ => [15, 20, 15, 10, 25, 10, 15, 3, 2, 40, 0],
            },
            items: (1, 4, 8),
            gdepth: 3,
            tr: src.pick(&[0, 40]),
            xf: src.pick(&[0, 25]),
            anim: src.pick(&[0, 0, 40]),
            overshoot: 10,
            hide: 4,
            ..Prof::default()
        };
        if src.pct(10) {
            prof = Prof::broad();
            prof.shapes[9] = 25;
        }
        let comp = r#gen::comp(src, &prof);
        let plain = without_trims(&comp);
        let text = enc::encode(&comp, src, Extras::Meta, 6).text();
        let bare = enc::encode(&plain, src, Extras::Meta, 6).text();
        ctx.input(text.clone());
        let (c, b) = (import(&text)?, import(&bare)?);
        let times = r#gen::all_times(&comp);
        'frames: for _ in 0..3 {
            let f = r#gen::frame(src, &times, prof.dyadic);
            let xf = r#gen::affine(src);
            if r#gen::ambiguous(&comp, f) {
                continue;
            }
            let (exp, stats) = expected(&comp, f, xf, 1.0);
            if stats.ambiguous || stats.trims == 0 || exp.len() > 4000 {
                continue;
            }
            let full = rend(&b, f, xf, 1.0);
            let m = cmp::compare(&expected(&plain, f, xf, 1.0).0, &full, TOL);
            if !m.aligned || m.mis.iter().any(|m| matches!(m.cat, Cat::Path | Cat::Struct)) {
                ctx.tag("untrimmed-differs");
                continue;
            }
            let got = rend(&c, f, xf, 1.0);
            // what is known of each call without trims
            let mut known: Vec<Option<(usize, &Vec<usize>)>> = vec![None; full.len()];
            for (e, covered) in &m.map {
                for (op, ix) in covered {
                    known[*op] = Some((*e, ix));
                }
            }
            let bad = |ctx: &mut Ctx, msg: String| -> R {
                ctx.note(format!("frame {f}"));
                ctx.note(format!("calls without trims:\n{}", show(&full)));
                ctx.note(format!("calls with trims:\n{}", show(&got)));
                fail(format!("at frame {f}: {msg}"))
            };
            let mut g = 0;
            for (k, op) in full.iter().enumerate() {
                let Op::Draw { path, .. } = op else {
                    if !got.get(g).is_some_and(|x| op_eq(x, op)) {
                        return bad(ctx, format!("call {g} is {} instead of {}", got.get(g).map(op_text).unwrap_or("missing".into()), op_text(op)));
                    }
                    g += 1;
                    continue;
                };
                let here = got.get(g).filter(|x| same_style(x, op));
                let Some((e, ix)) = known[k] else {
                    g += here.is_some() as usize;
                    continue;
                };
                let E::Draw(d) = &exp[e] else { unreachable!() };
                let parts: Vec<&EPart> = ix.iter().map(|i| &d.parts[*i]).filter(|p| outline_count(&p.outline) > 0).collect();
                let cs = contours(path);
                if parts.len() != cs.len() {
                    return Ok(());
                }
                let ax = Axis::new(&cs, path);
                let Some(w) = wanted(&ax, &parts) else {
                    ctx.tag("unclear");
                    g += here.is_some() as usize;
                    continue;
                };
                let what = format!("outline {k} of the untrimmed calls");
                if w.untouched {
                    if here.is_none_or(|x| !op_eq(x, op)) {
                        return bad(ctx, format!("{what}, which no trim changes, is not painted as without trims"));
                    }
                    g += 1;
                    continue;
                }
                let total = *ax.at.last().unwrap();
                ctx.nontrivial |= w.partial && total > 4.0 * w.slack + 1e-9;
                ctx.tag_if(total > 0.0 && super::trim::total(&w.iv) == 0.0, "removed");
                ctx.tag_if(w.iv.len() > cs.len(), "wrapped");
                ctx.tag_if(cs.len() > 1, "compound");
                ctx.tag_if(parts.iter().any(|p| p.trims.len() > 1), "stacked");
                ctx.tag_if(!w.free.is_empty(), "later-part");
                let small = super::trim::total(&w.iv) <= 2.0 * w.slack + 1e-9;
                match here {
                    Some(Op::Draw { path, .. }) => {
                        let r = verdict(&ax, &cs, &w, &contours(path));
                        match r {
                            Ok(()) => g += 1,
                            // the call may as well belong to the next outline: which calls follow is open
                            Err(_) if small && !path.is_empty() => {
                                ctx.tag("small");
                                continue 'frames;
                            }
                            Err(m) => return bad(ctx, format!("{what}: {m}")),
                        }
                    }
                    _ if small => {}
                    _ => return bad(ctx, format!("{what} is not painted")),
                }
            }
            if g < got.len() {
                return bad(ctx, format!("surplus call {}", op_text(&got[g])));
            }
        }
        Ok(())
    },
};
