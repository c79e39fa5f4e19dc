//! The abstract document: what a generated Lottie document says, independent of how it is spelled.

pub type V2 = [f64; 2];

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Ease {
    pub o: V2,
    pub i: V2,
    /// a handle the document leaves out lies at its end of the segment: (0, 0) or (1, 1)
    pub no_o: bool,
    pub no_i: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Key<T> {
    pub t: f64,
    pub v: T,
    pub ease: Option<Ease>,
    pub hold: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Anim<T> {
    Static(T),
    Keys(Vec<Key<T>>),
}
impl<T: Clone> Anim<T> {
    pub fn is_static(&self) -> bool {
        matches!(self, Anim::Static(_))
    }
    pub fn times(&self, out: &mut Vec<f64>) {
        if let Anim::Keys(k) = self {
            out.extend(k.iter().map(|k| k.t));
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Pos {
    Vec(Anim<V2>),
    Split(Anim<f64>, Anim<f64>),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Rot {
    Plain(Anim<f64>),
    Split(Anim<f64>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Xf {
    pub a: Option<Anim<V2>>,
    pub p: Pos,
    pub s: Option<Anim<V2>>,
    pub r: Option<Rot>,
    pub sk: Option<Anim<f64>>,
    pub sa: Option<Anim<f64>>,
    pub o: Option<Anim<f64>>,
}
impl Xf {
    pub fn identity() -> Self {
        Xf {
            a: None,
            p: Pos::Vec(Anim::Static([0.0, 0.0])),
            s: Some(Anim::Static([100.0, 100.0])),
            r: Some(Rot::Plain(Anim::Static(0.0))),
            sk: None,
            sa: None,
            o: None,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Bez {
    pub closed: Option<bool>,
    pub v: Vec<V2>,
    pub i: Vec<V2>,
    pub o: Vec<V2>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct PKey {
    pub t: f64,
    pub start: Option<Bez>,
    pub end: Option<Bez>,
    pub ease: Option<Ease>,
    pub hold: bool,
}
#[derive(Clone, Debug, PartialEq)]
pub enum PathVal {
    Static(Bez),
    Keys(Vec<PKey>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Grad {
    /// None: type omitted (linear)
    pub radial: Option<bool>,
    pub s: Anim<V2>,
    pub e: Anim<V2>,
    pub count: usize,
    /// flat: count * [offset, r, g, b], followed by [offset, alpha] pairs
    pub stops: Anim<Vec<f64>>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct StrokeP {
    pub w: Anim<f64>,
    pub lc: Option<u8>,
    pub lj: Option<u8>,
    pub ml: Option<f64>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Star {
    pub polygon: bool,
    pub p: Anim<V2>,
    pub or: Anim<f64>,
    pub os: Anim<f64>,
    pub r: Anim<f64>,
    pub pt: Anim<f64>,
    pub ir: Option<Anim<f64>>,
    pub is: Option<Anim<f64>>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ignored {
    Pucker,
    Merge,
    Offset,
    Twist,
    Rounded,
    Repeater,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Shape {
    Group { items: Vec<Shape>, xf: Option<Xf>, xf_at: usize },
    Rect { p: Anim<V2>, s: Anim<V2>, r: Anim<f64> },
    Ell { p: Anim<V2>, s: Anim<V2> },
    Star(Star),
    Path(PathVal),
    Fill { c: Anim<[f64; 3]>, o: Anim<f64> },
    Stroke { c: Anim<[f64; 3]>, o: Anim<f64>, st: StrokeP },
    GFill { g: Grad, o: Anim<f64> },
    GStroke { g: Grad, o: Anim<f64>, st: StrokeP },
    Trim { s: Anim<f64>, e: Anim<f64>, o: Anim<f64> },
    Ignored(Ignored),
    /// marked hidden
    Hidden(Box<Shape>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Mask {
    pub path: Option<PathVal>,
    pub o: Option<Anim<f64>>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    Null,
    Shape(Vec<Shape>),
    Precomp { ref_id: String, w: f64, h: f64 },
    Solid { w: f64, h: f64, color: String },
    Image { ref_id: String },
}

#[derive(Clone, Debug, PartialEq)]
pub struct Layer {
    pub kind: Kind,
    pub name: Option<String>,
    pub ind: Option<usize>,
    pub parent: Option<usize>,
    pub ip: f64,
    pub op: f64,
    /// start time; precomposition layers always state it
    pub st: Option<f64>,
    pub sr: Option<f64>,
    pub hidden: Option<bool>,
    pub td: Option<bool>,
    pub tt: Option<u8>,
    pub tp: Option<usize>,
    pub xf: Xf,
    pub masks: Option<Vec<Mask>>,
    pub bm: Option<u8>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Asset {
    Precomp { id: String, layers: Vec<Layer> },
    Image { id: String, w: Option<f64>, h: Option<f64> },
}

#[derive(Clone, Debug, PartialEq)]
pub struct Comp {
    pub w: usize,
    pub h: usize,
    pub fr: f64,
    pub ip: f64,
    pub op: f64,
    pub layers: Vec<Layer>,
    pub assets: Option<Vec<Asset>>,
}

impl Comp {
    pub fn asset(&self, id: &str) -> Option<&Vec<Layer>> {
        // a later asset of the same id replaces an earlier one
        self.assets.iter().flatten().rev().find_map(|a| match a {
            Asset::Precomp { id: i, layers } if i == id => Some(layers),
            _ => None,
        })
    }
}
