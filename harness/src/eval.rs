//! Reference evaluation of animated values and transforms, written from the format's documentation.

use crate::ast::*;
use kurbo::Affine;

thread_local! {
    static ILL: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
/// Whether an easing was met since the last call whose cubic equation is close to one with a triple
/// root: there the solver's closed formula cancels, and its result is exact to 1e-6 only.
pub fn ill_conditioned() -> bool {
    ILL.with(|c| c.replace(false))
}
fn near_triple(o: f64, i: f64) -> bool {
    let c3 = 1.0 - 3.0 * i + 3.0 * o;
    if c3 == 0.0 {
        return false;
    }
    let (b, c) = ((i - 2.0 * o) / c3, o / c3);
    let d = (c - b * b).abs();
    d != 0.0 && d < 5e-4 * (1.0 + b * b)
}

/// Height of the easing curve at relative time x; handle x coordinates must lie in 0..=1.
pub fn ease_at(e: &Option<Ease>, x: f64) -> f64 {
    let Some(e) = e else { return x };
    if near_triple(e.o[0], e.i[0]) {
        ILL.with(|c| c.set(true));
    }
    let bx = |u: f64| 3.0 * (1.0 - u) * (1.0 - u) * u * e.o[0] + 3.0 * (1.0 - u) * u * u * e.i[0] + u * u * u;
    let by = |u: f64| 3.0 * (1.0 - u) * (1.0 - u) * u * e.o[1] + 3.0 * (1.0 - u) * u * u * e.i[1] + u * u * u;
    let (mut lo, mut hi) = (0.0, 1.0);
    for _ in 0..80 {
        let mid = 0.5 * (lo + hi);
        if bx(mid) < x { lo = mid } else { hi = mid }
    }
    by(0.5 * (lo + hi))
}

pub trait Lerp: Clone {
    fn lerp(&self, o: &Self, t: f64) -> Self;
    fn zero() -> Self;
}
impl Lerp for f64 {
    fn lerp(&self, o: &Self, t: f64) -> Self {
        self + (o - self) * t
    }
    fn zero() -> Self {
        0.0
    }
}
impl Lerp for V2 {
    fn lerp(&self, o: &Self, t: f64) -> Self {
        [self[0].lerp(&o[0], t), self[1].lerp(&o[1], t)]
    }
    fn zero() -> Self {
        [0.0; 2]
    }
}
impl Lerp for [f64; 3] {
    fn lerp(&self, o: &Self, t: f64) -> Self {
        [self[0].lerp(&o[0], t), self[1].lerp(&o[1], t), self[2].lerp(&o[2], t)]
    }
    fn zero() -> Self {
        [0.0; 3]
    }
}
impl Lerp for Vec<f64> {
    fn lerp(&self, o: &Self, t: f64) -> Self {
        self.iter().zip(o).map(|(a, b)| a.lerp(b, t)).collect()
    }
    fn zero() -> Self {
        vec![]
    }
}

/// Where a frame falls in a list of (time, ease, hold): (segment start, segment end, eased fraction).
pub fn locate(keys: &[(f64, Option<Ease>, bool)], f: f64) -> (usize, usize, f64) {
    let n = keys.len();
    if f <= keys[0].0 {
        return (0, 0, 0.0);
    }
    if f >= keys[n - 1].0 {
        return (n - 1, n - 1, 0.0);
    }
    let mut k = 0;
    for (j, key) in keys.iter().enumerate() {
        if key.0 <= f {
            k = j;
        }
    }
    let (t0, ease, hold) = keys[k];
    let t1 = keys[k + 1].0;
    if hold || f == t0 {
        return (k, k, 0.0);
    }
    (k, k + 1, ease_at(&ease, (f - t0) / (t1 - t0)))
}

pub fn eval<T: Lerp>(a: &Anim<T>, f: f64) -> T {
    match a {
        Anim::Static(v) => v.clone(),
        Anim::Keys(k) if k.is_empty() => T::zero(),
        Anim::Keys(k) => {
            let keys: Vec<_> = k.iter().map(|k| (k.t, k.ease, k.hold)).collect();
            let (a, b, t) = locate(&keys, f);
            if a == b { k[a].v.clone() } else { k[a].v.lerp(&k[b].v, t) }
        }
    }
}

/// An opacity in percent, which an overshooting easing does not take out of its range.
pub fn opacity_at(o: &Anim<f64>, f: f64) -> f64 {
    (eval(o, f) / 100.0).clamp(0.0, 1.0)
}

pub fn mat(a: f64, b: f64, c: f64, d: f64, e: f64, f: f64) -> Affine {
    Affine::new([a, b, c, d, e, f])
}

pub fn xf_at(x: &Xf, f: f64) -> Affine {
    let a = x.a.as_ref().map(|a| eval(a, f)).unwrap_or([0.0, 0.0]);
    let p = match &x.p {
        Pos::Vec(p) => eval(p, f),
        Pos::Split(px, py) => [eval(px, f), eval(py, f)],
    };
    let s = x.s.as_ref().map(|s| eval(s, f)).unwrap_or([100.0, 100.0]);
    let r = match &x.r {
        None => 0.0,
        Some(Rot::Plain(r)) | Some(Rot::Split(r)) => eval(r, f),
    };
    let sk = x.sk.as_ref().map(|v| eval(v, f)).unwrap_or(0.0);
    let sa = x.sa.as_ref().map(|v| eval(v, f)).unwrap_or(0.0);
    let rot = |deg: f64| {
        let (s, c) = deg.to_radians().sin_cos();
        mat(c, s, -s, c, 0.0, 0.0)
    };
    // point -> minus anchor -> scale -> skew along the axis -> rotate -> plus position
    let skew = if sk == 0.0 {
        Affine::IDENTITY
    } else {
        rot(-sa) * mat(1.0, 0.0, sk.to_radians().tan(), 1.0, 0.0, 0.0) * rot(sa)
    };
    mat(1.0, 0.0, 0.0, 1.0, p[0], p[1])
        * rot(r)
        * skew
        * mat(s[0] / 100.0, 0.0, 0.0, s[1] / 100.0, 0.0, 0.0)
        * mat(1.0, 0.0, 0.0, 1.0, -a[0], -a[1])
}

/// The bezier shown at a frame and whether it is closed; None when there is nothing.
pub fn path_at(p: &PathVal, f: f64) -> Option<Bez> {
    match p {
        PathVal::Static(b) => Some(b.clone()),
        PathVal::Keys(ks) => {
            if ks.is_empty() {
                return None;
            }
            let start = |k: usize| -> Bez {
                ks[k].start.clone().unwrap_or_else(|| {
                    let prev = &ks[k - 1];
                    prev.end.clone().or(prev.start.clone()).unwrap()
                })
            };
            let keys: Vec<_> = ks.iter().map(|k| (k.t, k.ease, k.hold)).collect();
            let (a, b, t) = locate(&keys, f);
            let from = start(a);
            let closed = ks.iter().any(|k| k.start.iter().chain(k.end.iter()).any(|b| b.closed == Some(true)));
            let mut out = full(&from);
            if a != b {
                let to = full(&ks[a].end.clone().unwrap_or_else(|| start(b)));
                let n = out.v.len().min(to.v.len());
                for k in 0..n {
                    out.v[k] = out.v[k].lerp(&to.v[k], t);
                    out.i[k] = out.i[k].lerp(&to.i[k], t);
                    out.o[k] = out.o[k].lerp(&to.o[k], t);
                }
            }
            out.closed = Some(closed);
            Some(out)
        }
    }
}
/// Tangent lists brought to the length of the vertex list.
pub fn full(b: &Bez) -> Bez {
    let n = b.v.len();
    let fit = |l: &Vec<V2>| {
        let mut l = l.clone();
        l.resize(n, [0.0, 0.0]);
        l
    };
    Bez { closed: b.closed, v: b.v.clone(), i: fit(&b.i), o: fit(&b.o) }
}
