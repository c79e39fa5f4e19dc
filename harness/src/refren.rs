//! Reference renderer: what the sink should be told for an abstract document at a frame, from the properties' text.

use crate::ast::*;
use crate::eval::*;
use crate::geom::*;
use kurbo::{Affine, Cap, Join};

#[derive(Clone, Debug)]
pub enum E {
    /// root clip over the composition area
    Root { xf: Affine, w: f64, h: f64 },
    /// mask of a layer
    Mask { xf: Affine, outline: Outline },
    Layer { what: LayerWhat, xf: Affine, w: f64, h: f64 },
    Pop,
    Begin { name: String, index: usize, kind: &'static str },
    End,
    Draw(EDraw),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum LayerWhat {
    Isolate,
    Inside,
    Outside,
    /// matte mode "normal": operator not specified
    Any,
}

#[derive(Clone, Debug)]
pub struct EStroke {
    pub width: f64,
    pub cap: Option<Cap>,
    pub join: Option<Join>,
    pub miter: Option<f64>,
}
#[derive(Clone, Debug)]
pub enum EBrush {
    Solid([f64; 3]),
    Grad {
        radial: bool,
        s: V2,
        e: V2,
        /// offset, r, g, b
        stops: Vec<[f64; 4]>,
        /// least and greatest alpha of every stop, given by the transparency stops around it
        alpha: Vec<(f64, f64)>,
    },
}
#[derive(Clone, Debug)]
pub struct EDraw {
    pub stroke: Option<EStroke>,
    pub brush: EBrush,
    pub alpha: f64,
    pub parts: Vec<EPart>,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Rel {
    /// painted as one compound path with the previous part
    Same,
    /// in a path of its own
    Apart,
    Maybe,
}
#[derive(Clone, Debug)]
pub struct EPart {
    pub xf: Affine,
    pub outline: Outline,
    pub rel: Rel,
    /// order of appearance, shared numbering with trims
    pub seq: usize,
    pub trims: Vec<TrimAt>,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct TrimAt {
    pub seq: usize,
    pub s: f64,
    pub e: f64,
    pub o: f64,
}

#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub draws: usize,
    pub max_instance_depth: usize,
    pub instances: usize,
    pub mattes: usize,
    pub masks: usize,
    pub parents: usize,
    pub layers: usize,
    pub inactive: usize,
    pub groups: usize,
    pub trims: usize,
    /// a count falls on the edge between two whole numbers: rounding decides what is shown
    pub ambiguous: bool,
}

pub struct RefRender<'a> {
    c: &'a Comp,
    pub out: Vec<E>,
    pub stats: Stats,
    depth: usize,
}

pub fn expected(c: &Comp, f: f64, xf: Affine, alpha: f64) -> (Vec<E>, Stats) {
    let mut r = RefRender { c, out: vec![], stats: Stats::default(), depth: 0 };
    let (w, h) = (c.w as f64, c.h as f64);
    ill_conditioned();
    r.out.push(E::Root { xf, w, h });
    r.set(&c.layers, f, xf, alpha, "root");
    r.out.push(E::Pop);
    r.stats.ambiguous |= ill_conditioned();
    (r.out, r.stats)
}

/// The position in the list of the layer with this index: the last one that states it.
pub fn find(layers: &[Layer], ind: usize) -> Option<usize> {
    layers.iter().rposition(|l| l.ind == Some(ind))
}
pub fn is_matte_source(l: &Layer) -> bool {
    l.td == Some(true) && l.hidden != Some(true)
}
/// Matte source of every layer.
pub fn mattes(layers: &[Layer]) -> Vec<Option<usize>> {
    let mut prev = None;
    let mut out = vec![];
    for (k, l) in layers.iter().enumerate() {
        out.push(match (l.tt, l.tp) {
            (None, _) => None,
            (Some(_), Some(ind)) => find(layers, ind),
            (Some(_), None) => prev,
        });
        if is_matte_source(l) {
            prev = Some(k);
        } else if l.tt.is_some() {
            prev = None;
        }
    }
    out
}

#[derive(Clone)]
struct Part {
    xf: Affine,
    chain: Vec<[f64; 9]>,
    list: usize,
    outline: Outline,
    seq: usize,
    trims: Vec<TrimAt>,
    rel: Rel,
}
struct Draw {
    stroke: Option<EStroke>,
    brush: EBrush,
    alpha: f64,
    range: std::ops::Range<usize>,
}
struct Batch {
    parts: Vec<Part>,
    draws: Vec<Draw>,
    /// parts before this have been used by a style
    drawn: usize,
    seq: usize,
    lists: usize,
}

impl RefRender<'_> {
    fn set(&mut self, layers: &[Layer], f: f64, xf: Affine, alpha: f64, kind: &'static str) {
        for k in (0..layers.len()).rev() {
            if !is_matte_source(&layers[k]) {
                self.layer(layers, k, f, xf, alpha, kind, &mut vec![]);
            }
        }
    }

    fn layer(&mut self, set: &[Layer], k: usize, f: f64, base: Affine, alpha: f64, kind: &'static str, chain: &mut Vec<usize>) {
        let l = &set[k];
        if !(l.ip <= f && f < l.op) {
            self.stats.inactive += 1;
            return;
        }
        self.stats.layers += 1;
        self.out.push(E::Begin { name: l.name.clone().unwrap_or_default(), index: k, kind });
        // ancestors, nearest first; a repeated one ends the chain
        let mut place = xf_at(&l.xf, f);
        let mut seen = vec![k];
        let mut up = l.parent;
        while let Some(ind) = up {
            let Some(p) = find(set, ind) else { break };
            if seen.contains(&p) {
                break;
            }
            seen.push(p);
            self.stats.parents += 1;
            place = xf_at(&set[p].xf, f) * place;
            up = set[p].parent;
        }
        let place = base * place;
        let (w, h) = (self.c.w as f64, self.c.h as f64);
        let mut pops = 0;
        if let Some(src) = mattes(set)[k] {
            self.stats.mattes += 1;
            self.out.push(E::Layer { what: LayerWhat::Isolate, xf: base, w, h });
            if !chain.contains(&src) && src != k {
                chain.push(k);
                self.layer(set, src, f, base, alpha, "matte", chain);
                chain.pop();
            }
            let what = match l.tt.unwrap() {
                1 | 3 => LayerWhat::Inside,
                2 | 4 => LayerWhat::Outside,
                _ => LayerWhat::Any,
            };
            self.out.push(E::Layer { what, xf: base, w, h });
            pops += 2;
        }
        let alpha = alpha * l.xf.o.as_ref().map(|o| opacity_at(o, f)).unwrap_or(1.0);
        for m in l.masks.iter().flatten() {
            if let Some(p) = &m.path {
                self.stats.masks += 1;
                let outline = path_at(p, f).map(|b| bez_outline(&b)).unwrap_or(Outline::Empty);
                self.out.push(E::Mask { xf: place, outline });
                pops += 1;
            }
        }
        if l.hidden != Some(true) {
            match &l.kind {
                Kind::Precomp { ref_id, .. } => {
                    if let Some(layers) = self.c.asset(ref_id) {
                        self.depth += 1;
                        self.stats.instances += 1;
                        self.stats.max_instance_depth = self.stats.max_instance_depth.max(self.depth);
                        let inner = (f - l.st.unwrap_or(0.0)) / l.sr.unwrap_or(1.0);
                        self.set(layers, inner, place, alpha, "asset");
                        self.depth -= 1;
                    }
                }
                Kind::Shape(shapes) => {
                    let mut b = Batch { parts: vec![], draws: vec![], drawn: 0, seq: 0, lists: 0 };
                    self.shapes(&mut b, shapes, place, &mut vec![], alpha, f);
                    for d in b.draws.iter().rev() {
                        self.stats.draws += 1;
                        let parts = b.parts[d.range.clone()]
                            .iter()
                            .enumerate()
                            .map(|(n, p)| EPart {
                                xf: p.xf,
                                outline: p.outline.clone(),
                                rel: if n == 0 { Rel::Apart } else { p.rel },
                                seq: p.seq,
                                trims: p.trims.clone(),
                            })
                            .collect();
                        self.out.push(E::Draw(EDraw { stroke: d.stroke.clone(), brush: d.brush.clone(), alpha: d.alpha, parts }));
                    }
                }
                _ => {}
            }
        }
        for _ in 0..pops {
            self.out.push(E::Pop);
        }
        self.out.push(E::End);
    }

    fn shapes(&mut self, b: &mut Batch, shapes: &[Shape], xf: Affine, chain: &mut Vec<[f64; 9]>, alpha: f64, f: f64) {
        let start = b.parts.len();
        b.lists += 1;
        let mut list = b.lists;
        for s in shapes {
            let style = |o: &Anim<f64>| alpha * opacity_at(o, f);
            match s {
                Shape::Group { items, xf: tr, .. } => {
                    self.stats.groups += 1;
                    let mut pushed = false;
                    let (mut gx, mut ga) = (xf, alpha);
                    if let Some(t) = tr {
                        gx = xf * xf_at(t, f);
                        ga *= t.o.as_ref().map(|o| opacity_at(o, f)).unwrap_or(1.0);
                        let id = ident(t, f);
                        if id != IDENT {
                            chain.push(id);
                            pushed = true;
                        }
                    }
                    self.shapes(b, items, gx, chain, ga, f);
                    if pushed {
                        chain.pop();
                    }
                    // paths with a group between them do not follow each other directly
                    b.lists += 1;
                    list = b.lists;
                }
                Shape::Rect { p, s, r } => {
                    let (p, s) = (eval(p, f), eval(s, f));
                    let o = Outline::Rect { x: p[0], y: p[1], w: s[0], h: s[1], r: eval(r, f) };
                    self.part(b, o, xf, chain, list, start);
                }
                Shape::Ell { p, s } => {
                    let (p, s) = (eval(p, f), eval(s, f));
                    let o = Outline::Ellipse { x: p[0], y: p[1], rx: s[0] / 2.0, ry: s[1] / 2.0 };
                    self.part(b, o, xf, chain, list, start);
                }
                Shape::Star(st) => {
                    let ir = st.ir.as_ref().map(|v| eval(v, f)).unwrap_or(0.0);
                    let is = st.is.as_ref().map(|v| eval(v, f)).unwrap_or(0.0);
                    let n = eval(&st.pt, f);
                    self.stats.ambiguous |= ((n - n.floor()) - 0.5).abs() < 1e-5;
                    let o = star_outline(st.polygon, eval(&st.p, f), n, eval(&st.or, f), eval(&st.os, f), ir, is, eval(&st.r, f));
                    self.part(b, o, xf, chain, list, start);
                }
                Shape::Path(p) => {
                    let o = path_at(p, f).map(|b| bez_outline(&b)).unwrap_or(Outline::Empty);
                    self.part(b, o, xf, chain, list, start);
                }
                Shape::Fill { c, o } => {
                    let brush = EBrush::Solid(eval(c, f));
                    b.draws.push(Draw { stroke: None, brush, alpha: style(o), range: start..b.parts.len() });
                    b.drawn = b.parts.len();
                }
                Shape::Stroke { c, o, st } => {
                    let brush = EBrush::Solid(eval(c, f));
                    b.draws.push(Draw { stroke: Some(stroke_at(st, f)), brush, alpha: style(o), range: start..b.parts.len() });
                    b.drawn = b.parts.len();
                }
                Shape::GFill { g, o } => {
                    b.draws.push(Draw { stroke: None, brush: grad_at(g, f), alpha: style(o), range: start..b.parts.len() });
                    b.drawn = b.parts.len();
                }
                Shape::GStroke { g, o, st } => {
                    b.draws.push(Draw { stroke: Some(stroke_at(st, f)), brush: grad_at(g, f), alpha: style(o), range: start..b.parts.len() });
                    b.drawn = b.parts.len();
                }
                Shape::Trim { s, e, o } => {
                    self.stats.trims += 1;
                    b.seq += 1;
                    let t = TrimAt { seq: b.seq, s: eval(s, f), e: eval(e, f), o: eval(o, f) };
                    for p in &mut b.parts[start..] {
                        p.trims.push(t);
                    }
                }
                Shape::Ignored(_) | Shape::Hidden(_) => {}
            }
        }
    }

    fn part(&mut self, b: &mut Batch, outline: Outline, xf: Affine, chain: &[[f64; 9]], list: usize, start: usize) {
        b.seq += 1;
        let n = b.parts.len();
        let rel = if n == 0 || n <= start || b.drawn >= n {
            Rel::Apart
        } else {
            let prev = &b.parts[n - 1];
            let d = prev.xf.as_coeffs().iter().zip(xf.as_coeffs()).fold(0.0f64, |m, (a, b)| m.max((a - b).abs() / (1.0 + b.abs())));
            if d > 1e-9 {
                Rel::Apart
            } else if prev.list == list {
                Rel::Same
            } else {
                // same place but another group: either way of painting is fine
                let _ = (&prev.chain, chain);
                Rel::Maybe
            }
        };
        b.parts.push(Part { xf, chain: chain.to_vec(), list, outline, seq: b.seq, trims: vec![], rel });
    }
}

const IDENT: [f64; 9] = [0.0, 0.0, 0.0, 0.0, 100.0, 100.0, 0.0, 0.0, 0.0];
fn ident(t: &Xf, f: f64) -> [f64; 9] {
    let a = t.a.as_ref().map(|a| eval(a, f)).unwrap_or([0.0; 2]);
    let p = match &t.p {
        Pos::Vec(p) => eval(p, f),
        Pos::Split(x, y) => [eval(x, f), eval(y, f)],
    };
    let s = t.s.as_ref().map(|s| eval(s, f)).unwrap_or([100.0; 2]);
    let r = match &t.r {
        None => 0.0,
        Some(Rot::Plain(r)) | Some(Rot::Split(r)) => eval(r, f),
    };
    let sk = t.sk.as_ref().map(|v| eval(v, f)).unwrap_or(0.0);
    [a[0], a[1], p[0], p[1], s[0], s[1], r, sk, if sk == 0.0 { 0.0 } else { t.sa.as_ref().map(|v| eval(v, f)).unwrap_or(0.0) }]
}

fn stroke_at(st: &StrokeP, f: f64) -> EStroke {
    EStroke {
        width: eval(&st.w, f),
        cap: st.lc.map(|c| match c {
            1 => Cap::Butt,
            2 => Cap::Round,
            _ => Cap::Square,
        }),
        join: st.lj.map(|c| match c {
            1 => Join::Miter,
            2 => Join::Round,
            _ => Join::Bevel,
        }),
        miter: st.ml,
    }
}

fn grad_at(g: &Grad, f: f64) -> EBrush {
    let v = eval(&g.stops, f);
    let n = g.count.min(v.len() / 4);
    let stops = (0..n).map(|k| [v[4 * k], v[4 * k + 1], v[4 * k + 2], v[4 * k + 3]]).collect();
    let alpha = match &g.stops {
        Anim::Static(v) => alphas_at(v, n),
        Anim::Keys(k) if k.is_empty() => vec![],
        Anim::Keys(k) => {
            let keys: Vec<_> = k.iter().map(|k| (k.t, k.ease, k.hold)).collect();
            let (a, b, t) = locate(&keys, f);
            let (x, y) = (alphas_at(&k[a].v, n), alphas_at(&k[b].v, n));
            x.iter()
                .zip(&y)
                .map(|(x, y)| {
                    let c = [x.0.lerp(&y.0, t), x.0.lerp(&y.1, t), x.1.lerp(&y.0, t), x.1.lerp(&y.1, t)];
                    (c.iter().copied().fold(f64::INFINITY, f64::min), c.iter().copied().fold(f64::NEG_INFINITY, f64::max))
                })
                .collect()
        }
    };
    EBrush::Grad { radial: g.radial == Some(true), s: eval(&g.s, f), e: eval(&g.e, f), stops, alpha }
}

/// For every colour stop the range its alpha may lie in: between those of the transparency stops on either side.
fn alphas_at(v: &[f64], n: usize) -> Vec<(f64, f64)> {
    let rest: Vec<(f64, f64)> = v[4 * n..].chunks_exact(2).map(|c| (c[0], c[1])).collect();
    (0..n)
        .map(|k| {
            let x = v[4 * k];
            if rest.is_empty() {
                return (1.0, 1.0);
            }
            let below = rest.iter().map(|r| r.0).filter(|o| *o <= x).fold(f64::NEG_INFINITY, f64::max);
            let above = rest.iter().map(|r| r.0).filter(|o| *o >= x).fold(f64::INFINITY, f64::min);
            let near: Vec<f64> = rest.iter().filter(|r| r.0 == below || r.0 == above).map(|r| r.1).collect();
            (near.iter().copied().fold(f64::INFINITY, f64::min), near.iter().copied().fold(f64::NEG_INFINITY, f64::max))
        })
        .collect()
}
