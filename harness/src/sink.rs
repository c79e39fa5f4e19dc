//! Records the calls a RenderSink receives.

use kurbo::{Affine, PathEl, Shape, Stroke};
use peniko::{BlendMode, Brush};
use velato::model::fixed;
use velato::{Composition, RenderSink, Renderer};

#[derive(Clone, Debug)]
pub enum Op {
    Layer { blend: BlendMode, alpha: f32, xf: Affine, path: Vec<PathEl> },
    Clip { xf: Affine, path: Vec<PathEl> },
    Pop,
    Draw { stroke: Option<Stroke>, xf: Affine, brush: Brush, path: Vec<PathEl> },
    Begin { name: String, index: usize },
    End,
}

#[derive(Default)]
pub struct Rec {
    pub ops: Vec<Op>,
    /// panic when exceeded: a bound on output, far above what generated documents can produce
    pub limit: usize,
}
impl Rec {
    pub fn new() -> Self {
        Rec { ops: vec![], limit: 3_000_000 }
    }
    fn push(&mut self, op: Op) {
        self.ops.push(op);
        if self.ops.len() > self.limit {
            panic!("more than {} sink calls for one frame", self.limit);
        }
    }
}

fn els(s: &impl Shape) -> Vec<PathEl> {
    s.path_elements(1e-3).collect()
}

impl RenderSink for Rec {
    fn push_layer(&mut self, blend: impl Into<BlendMode>, alpha: f32, xf: Affine, shape: &impl Shape) {
        let path = els(shape);
        self.push(Op::Layer { blend: blend.into(), alpha, xf, path });
    }
    fn push_clip_layer(&mut self, xf: Affine, shape: &impl Shape) {
        let path = els(shape);
        self.push(Op::Clip { xf, path });
    }
    fn pop_layer(&mut self) {
        self.push(Op::Pop);
    }
    fn draw(&mut self, stroke: Option<&fixed::Stroke>, xf: Affine, brush: &fixed::Brush, shape: &impl Shape) {
        let path = els(shape);
        self.push(Op::Draw { stroke: stroke.cloned(), xf, brush: brush.clone(), path });
    }
    fn begin_layer_group(&mut self, name: &str, index: usize) {
        self.push(Op::Begin { name: name.to_string(), index });
    }
    fn end_layer_group(&mut self) {
        self.push(Op::End);
    }
}

pub fn render_with(r: &mut Renderer, c: &Composition, frame: f64, xf: Affine, alpha: f64) -> Vec<Op> {
    let mut rec = Rec::new();
    r.append(c, frame, xf, alpha, &mut rec);
    rec.ops
}
pub fn render(c: &Composition, frame: f64, xf: Affine, alpha: f64) -> Vec<Op> {
    render_with(&mut Renderer::new(), c, frame, xf, alpha)
}

/// Bit-exact textual form of one call (Debug of f64/f32 is round-trip exact).
pub fn op_text(op: &Op) -> String {
    format!("{op:?}")
}
pub fn same_ops(a: &[Op], b: &[Op]) -> Result<(), String> {
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        if !op_eq(x, y) {
            return Err(format!("call {i} differs:\n  {}\n  {}", op_text(x), op_text(y)));
        }
    }
    if a.len() != b.len() {
        let (n, which) = if a.len() > b.len() { (b.len(), &a[b.len()]) } else { (a.len(), &b[a.len()]) };
        return Err(format!("{} versus {} calls; first surplus call (index {n}): {}", a.len(), b.len(), op_text(which)));
    }
    Ok(())
}
fn eqf(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}
fn eqx(a: &Affine, b: &Affine) -> bool {
    a.as_coeffs().iter().zip(b.as_coeffs()).all(|(x, y)| eqf(*x, y))
}
fn eqp(a: &[PathEl], b: &[PathEl]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x == y || format!("{x:?}") == format!("{y:?}"))
}
pub fn op_eq(a: &Op, b: &Op) -> bool {
    match (a, b) {
        (Op::Layer { blend: b1, alpha: a1, xf: x1, path: p1 }, Op::Layer { blend: b2, alpha: a2, xf: x2, path: p2 }) => {
            b1 == b2 && eqf(*a1 as f64, *a2 as f64) && eqx(x1, x2) && eqp(p1, p2)
        }
        (Op::Clip { xf: x1, path: p1 }, Op::Clip { xf: x2, path: p2 }) => eqx(x1, x2) && eqp(p1, p2),
        (Op::Pop, Op::Pop) | (Op::End, Op::End) => true,
        (Op::Begin { name: n1, index: i1 }, Op::Begin { name: n2, index: i2 }) => n1 == n2 && i1 == i2,
        (Op::Draw { stroke: s1, xf: x1, brush: b1, path: p1 }, Op::Draw { stroke: s2, xf: x2, brush: b2, path: p2 }) => {
            let s = match (s1, s2) {
                (None, None) => true,
                (Some(_), Some(_)) => format!("{s1:?}") == format!("{s2:?}"),
                _ => false,
            };
            s && eqx(x1, x2) && eqp(p1, p2) && (b1 == b2 || format!("{b1:?}") == format!("{b2:?}"))
        }
        _ => false,
    }
}

pub fn show(ops: &[Op]) -> String {
    let mut s = String::new();
    let mut depth = 0usize;
    for (i, op) in ops.iter().enumerate() {
        if matches!(op, Op::Pop | Op::End) {
            depth = depth.saturating_sub(1);
        }
        s += &format!("{i:4} {}{}\n", "  ".repeat(depth), brief(op));
        if matches!(op, Op::Layer { .. } | Op::Clip { .. } | Op::Begin { .. }) {
            depth += 1;
        }
        if s.len() > 20_000 {
            s += "...\n";
            break;
        }
    }
    s
}
fn brief(op: &Op) -> String {
    let p = |p: &Vec<PathEl>| {
        let b: kurbo::BezPath = p.iter().copied().collect();
        let t = b.to_svg();
        if t.len() > 160 { format!("{}...", &t[..t.char_indices().map(|c| c.0).take_while(|i| *i < 160).last().unwrap_or(0)]) } else { t }
    };
    match op {
        Op::Layer { blend, alpha, xf, path } => format!("layer {:?}/{:?} alpha={alpha} xf={:?} {}", blend.mix, blend.compose, xf.as_coeffs(), p(path)),
        Op::Clip { xf, path } => format!("clip xf={:?} {}", xf.as_coeffs(), p(path)),
        Op::Pop => "pop".into(),
        Op::End => "end".into(),
        Op::Begin { name, index } => format!("begin {name:?} #{index}"),
        Op::Draw { stroke, xf, brush, path } => {
            let st = stroke.as_ref().map(|s| format!("stroke(w={} {:?} {:?} ml={})", s.width, s.join, s.start_cap, s.miter_limit)).unwrap_or("fill".into());
            let br = match brush {
                Brush::Solid(c) => format!("{:?}", c.components),
                Brush::Gradient(g) => format!("{:?} {:?}", g.kind, g.stops.iter().map(|s| (s.offset, s.color.components)).collect::<Vec<_>>()),
                Brush::Image(_) => "image".into(),
            };
            format!("draw {st} {br} xf={:?} {}", xf.as_coeffs(), p(path))
        }
    }
}
