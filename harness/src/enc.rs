//! Writes an abstract document as annotated JSON, choosing among the legal spellings of each construct.

use crate::ast::*;
use crate::json::*;
use crate::src::Src;
use serde_json::json;

/// How much beyond the bare document is written.
#[derive(Clone, Copy, PartialEq, PartialOrd, Debug)]
pub enum Extras {
    /// canonical spelling, nothing extra
    None,
    /// varied spelling and metadata without influence on rendering
    Meta,
    /// every optional property the format model knows, including those the renderer ignores
    Full,
}

pub struct Enc<'s, 'l> {
    pub src: &'s mut Src<'l>,
    pub ex: Extras,
    /// percentage with which an extra is written
    pub rate: u32,
}

pub fn encode_plain(c: &Comp) -> J {
    let mut z = Src::zero();
    Enc { src: &mut z, ex: Extras::None, rate: 0 }.comp(c)
}
pub fn encode(c: &Comp, src: &mut Src, ex: Extras, rate: u32) -> J {
    Enc { src, ex, rate }.comp(c)
}

fn real2(v: V2) -> Vec<J> {
    vec![J::Real(v[0]), J::Real(v[1])]
}

impl Enc<'_, '_> {
    fn m(&mut self) -> bool {
        self.ex >= Extras::Meta && self.src.pct(self.rate)
    }
    fn f(&mut self) -> bool {
        self.ex >= Extras::Full && self.src.pct(self.rate)
    }
    /// spelling choice among n, 0 when canonical
    fn v(&mut self, n: u32) -> u32 {
        if self.ex == Extras::None { 0 } else { self.src.below(n) }
    }
    fn word(&mut self) -> String {
        let ws = ["", "x", "Layer 1", "é∆", "a\"b\\", "ADBE Vector", "0", "comp_0", "\u{1F600}", "a very long name indeed, with spaces and more"];
        self.src.pick(&ws).to_string()
    }
    fn num(&mut self) -> f64 {
        self.src.num(-50.0, 50.0)
    }
    fn static_num(&mut self) -> J {
        let mut o = Ob::new();
        let n = self.num();
        o.req("k", J::Real(n));
        o.j()
    }

    fn handle(&mut self, h: V2, dims: usize) -> J {
        let comp = |e: &mut Self, x: f64| -> J {
            let k = if dims <= 1 { e.v(2) } else { e.v(2 + dims as u32) };
            match k {
                0 => J::Real(x),
                1 => J::Arr(vec![J::Real(x)]),
                n => J::Arr(vec![J::Real(x); n as usize]),
            }
        };
        let mut o = Ob::new();
        let (x, y) = (comp(self, h[0]), comp(self, h[1]));
        o.req("x", x);
        o.req("y", y);
        o.j()
    }
    fn key_base(&mut self, o: &mut Ob, t: f64, hold: bool, ease: &Option<Ease>, dims: usize) {
        o.req("t", J::Real(t));
        if hold {
            o.opt("h", J::B01(true));
        } else if self.m() {
            o.meta("h", J::B01(false));
        }
        if let Some(e) = ease {
            if !e.no_i {
                let h = self.handle(e.i, dims);
                o.opt("i", h);
            }
            if !e.no_o {
                let h = self.handle(e.o, dims);
                o.opt("o", h);
            }
        }
    }
    fn prop_meta(&mut self, o: &mut Ob, animated: bool) {
        if self.m() {
            o.meta("a", J::B01(animated));
        }
        if self.m() {
            let n = self.src.usize(0, 40);
            o.meta("ix", J::Real(n as f64));
        }
        if self.f() {
            o.opt("x", J::Str("var $bm_rt; $bm_rt = 1;".into()));
        }
    }
    fn slot(&mut self, o: &mut Ob) {
        if self.f() {
            let w = self.word();
            o.opt("sid", J::Str(w));
        }
    }

    fn scalar(&mut self, a: &Anim<f64>) -> J {
        let mut o = Ob::new();
        self.prop_meta(&mut o, !a.is_static());
        self.slot(&mut o);
        match a {
            Anim::Static(x) => o.req("k", J::Real(*x)),
            Anim::Keys(ks) => {
                let arr = self.keys(ks, 1, &|x| vec![*x]);
                o.req("k", arr);
            }
        }
        o.j()
    }
    fn keys<T>(&mut self, ks: &[Key<T>], dims: usize, f: &dyn Fn(&T) -> Vec<f64>) -> J {
        let mut arr = vec![];
        for (i, k) in ks.iter().enumerate() {
            let mut o = Ob::new();
            self.key_base(&mut o, k.t, k.hold, &k.ease, dims);
            o.req("s", J::Arr(f(&k.v).into_iter().map(J::Real).collect()));
            if i + 1 < ks.len() && self.m() {
                o.meta("e", J::Arr(f(&ks[i + 1].v).into_iter().map(J::Real).collect()));
            }
            arr.push(o.j());
        }
        J::Arr(arr)
    }
    fn vecn(&mut self, a: &Anim<V2>, z: f64) -> J {
        let mut o = Ob::new();
        self.prop_meta(&mut o, !a.is_static());
        self.slot(&mut o);
        if self.m() {
            o.meta("l", J::Real(2.0));
        }
        let three = self.v(2) == 1;
        let f = move |v: &V2| if three { vec![v[0], v[1], z] } else { v.to_vec() };
        match a {
            Anim::Static(v) => o.req("k", J::Arr(f(v).into_iter().map(J::Real).collect())),
            Anim::Keys(ks) => {
                let arr = self.keys(ks, 2, &f);
                o.req("k", arr);
            }
        }
        o.j()
    }
    /// position properties have no slot id but may carry spatial tangents
    fn pos(&mut self, a: &Anim<V2>) -> J {
        let mut o = Ob::new();
        self.prop_meta(&mut o, !a.is_static());
        if self.m() {
            o.meta("l", J::Real(2.0));
        }
        let three = self.v(2) == 1;
        let f = move |v: &V2| if three { vec![v[0], v[1], 0.0] } else { v.to_vec() };
        match a {
            Anim::Static(v) => o.req("k", J::Arr(f(v).into_iter().map(J::Real).collect())),
            Anim::Keys(ks) => {
                let mut arr = self.keys(ks, 2, &f);
                if let J::Arr(a) = &mut arr {
                    for k in a {
                        if let J::Obj(fs) = k {
                            for key in ["ti", "to"] {
                                if self.f() {
                                    let (x, y) = (self.num(), self.num());
                                    fs.push(Field { k: key.into(), v: J::Arr(real2([x, y])), req: false, redundant: false });
                                }
                            }
                        }
                    }
                }
                o.req("k", arr);
            }
        }
        o.j()
    }
    fn color(&mut self, a: &Anim<[f64; 3]>) -> J {
        let mut o = Ob::new();
        self.prop_meta(&mut o, !a.is_static());
        self.slot(&mut o);
        // a fourth component means nothing
        let fourth = [None, Some(1.0), None, Some(1.0), None, Some(0.25), None, Some(0.0)][self.v(8) as usize];
        let f = move |v: &[f64; 3]| v.iter().copied().chain(fourth).collect::<Vec<f64>>();
        match a {
            Anim::Static(v) => o.req("k", J::Arr(f(v).into_iter().map(J::Real).collect())),
            Anim::Keys(ks) => {
                let arr = self.keys(ks, 2, &f);
                o.req("k", arr);
            }
        }
        o.j()
    }
    fn split_pos(&mut self, x: &Anim<f64>, y: &Anim<f64>) -> J {
        let mut o = Ob::new();
        o.req("s", J::Bool(true));
        let jx = self.scalar(x);
        o.req("x", jx);
        let jy = self.scalar(y);
        o.req("y", jy);
        if self.m() {
            o.meta("z", J::Obj(vec![Field { k: "k".into(), v: J::Real(0.0), req: true, redundant: false }]));
        }
        o.j()
    }
    fn xf_into(&mut self, o: &mut Ob, x: &Xf) {
        if let Some(a) = &x.a {
            let j = self.pos(a);
            o.opt("a", j);
        }
        let j = match &x.p {
            Pos::Vec(a) => self.pos(a),
            Pos::Split(a, b) => self.split_pos(a, b),
        };
        o.req("p", j);
        if let Some(s) = &x.s {
            let j = self.vecn(s, 100.0);
            o.opt("s", j);
        }
        match &x.r {
            None => {}
            Some(Rot::Plain(a)) => {
                let j = self.scalar(a);
                o.opt("r", j);
            }
            Some(Rot::Split(z)) => {
                let mut r = Ob::new();
                let zero = Anim::Static(0.0);
                let j = self.scalar(&zero);
                r.req("x", j);
                let j = self.scalar(&zero);
                r.req("y", j);
                let j = self.scalar(z);
                r.req("z", j);
                let mut or = Ob::new();
                or.req("k", J::Arr(vec![J::Real(0.0), J::Real(0.0), J::Real(0.0)]));
                r.req("or", or.j());
                o.opt("r", r.j());
            }
        }
        for (k, v) in [("sk", &x.sk), ("sa", &x.sa), ("o", &x.o)] {
            if let Some(v) = v {
                let j = self.scalar(v);
                o.opt(k, j);
            }
        }
    }
    fn bez(&mut self, b: &Bez) -> J {
        let mut o = Ob::new();
        match b.closed {
            Some(c) => o.opt("c", J::Bool(c)),
            None => {}
        }
        for (k, l) in [("v", &b.v), ("i", &b.i), ("o", &b.o)] {
            o.req(k, J::Arr(l.iter().map(|p| J::Arr(real2(*p))).collect()));
        }
        o.j()
    }
    fn path(&mut self, p: &PathVal) -> J {
        let mut o = Ob::new();
        self.prop_meta(&mut o, matches!(p, PathVal::Keys(_)));
        match p {
            PathVal::Static(b) => {
                let j = self.bez(b);
                o.req("k", j);
            }
            PathVal::Keys(ks) => {
                let mut arr = vec![];
                let n = ks.len();
                for (i, k) in ks.iter().enumerate() {
                    let mut ko = Ob::new();
                    self.key_base(&mut ko, k.t, k.hold, &k.ease, 1);
                    if let Some(b) = &k.start {
                        let j = self.bez(b);
                        let j = J::Arr(vec![j]);
                        if i + 1 < n { ko.req("s", j) } else { ko.opt("s", j) }
                    }
                    if let Some(b) = &k.end {
                        let j = self.bez(b);
                        ko.opt("e", J::Arr(vec![j]));
                    }
                    arr.push(ko.j());
                }
                o.req("k", J::Arr(arr));
            }
        }
        o.j()
    }
    fn grad_into(&mut self, o: &mut Ob, g: &Grad) {
        let mut go = Ob::new();
        go.req("p", J::Int(g.count as i64));
        let mut k = Ob::new();
        self.prop_meta(&mut k, !g.stops.is_static());
        self.slot(&mut k);
        match &g.stops {
            Anim::Static(v) => k.req("k", J::Arr(v.iter().map(|x| J::Real(*x)).collect())),
            Anim::Keys(ks) => {
                let arr = self.keys(ks, 1, &|v| v.clone());
                k.req("k", arr);
            }
        }
        go.req("k", k.j());
        o.req("g", go.j());
        let j = self.vecn(&g.s, 0.0);
        o.req("s", j);
        let j = self.vecn(&g.e, 0.0);
        o.req("e", j);
        if let Some(r) = g.radial {
            o.opt("t", J::Code(if r { 2 } else { 1 }));
        }
        if self.f() {
            let j = self.static_num();
            o.opt("h", j);
        }
        if self.f() {
            let j = self.static_num();
            o.opt("a", j);
        }
    }
    /// A layer style. Layers do not carry them, but the format model has them.
    pub fn layer_style(&mut self, which: usize, color: &Anim<[f64; 3]>, g: &Grad, nums: &[Anim<f64>]) -> J {
        let keys: &[&str] = match which {
            0 => &["bm", "so"],
            1 => &["bm", "o", "gs", "a", "re", "al", "s", "of"],
            2 => &["bm", "o", "r", "ch", "no", "j"],
            _ => &["bm", "o", "a", "d", "s", "in"],
        };
        let mut o = Ob::new();
        let c = self.src.int(0, 8);
        o.req("ty", J::Code(c));
        for k in ["nm", "mn"] {
            if self.m() {
                let w = self.word();
                o.meta(k, J::Str(w));
            }
        }
        for (k, a) in keys.iter().zip(nums) {
            if self.f() {
                let j = self.scalar(a);
                o.opt(k, j);
            }
        }
        if self.f() {
            let j = self.color(color);
            o.opt("c", j);
        }
        if which == 1 {
            if self.f() {
                let mut go = Ob::new();
                self.grad_into(&mut go, g);
                let j = go.0.into_iter().find(|f| f.k == "g").unwrap().v;
                o.opt("gf", j);
            }
            if self.f() {
                let c = self.src.int(1, 2);
                o.opt("gt", J::Code(c));
            }
        }
        o.j()
    }
    fn stroke_into(&mut self, o: &mut Ob, s: &StrokeP) {
        let j = self.scalar(&s.w);
        o.req("w", j);
        if let Some(c) = s.lc {
            o.opt("lc", J::Code(c as i64));
        }
        if let Some(c) = s.lj {
            o.opt("lj", J::Code(c as i64));
        }
        if let Some(c) = s.ml {
            o.opt("ml", J::Real(c));
        }
        if self.f() {
            let j = self.static_num();
            o.opt("ml2", j);
        }
        if self.f() {
            let n = self.src.usize(0, 3);
            let mut arr = vec![];
            for _ in 0..n {
                let mut d = Ob::new();
                if self.src.pct(80) {
                    let k = self.src.pick(&["d", "g", "o"]);
                    d.opt("n", J::SCode(k.into()));
                }
                if self.src.pct(80) {
                    let j = self.static_num();
                    d.opt("v", j);
                }
                if self.src.pct(30) {
                    let w = self.word();
                    d.opt("nm", J::Str(w));
                }
                arr.push(d.j());
            }
            o.opt("d", J::Arr(arr));
        }
    }
    /// `hd`: whether the shape is hidden; None when that means nothing for it
    fn shape_meta(&mut self, o: &mut Ob, hd: Option<bool>) {
        for k in ["nm", "mn", "cl", "ln"] {
            if self.m() {
                let w = self.word();
                o.meta(k, J::Str(w));
            }
        }
        for k in ["ix", "ind"] {
            if self.m() {
                let n = self.src.usize(0, 30) as f64;
                o.meta(k, J::Real(n));
            }
        }
        if hd == Some(true) {
            o.opt("hd", J::Bool(true));
        } else if self.m() {
            o.meta("hd", J::Bool(false));
        } else if hd.is_none() && self.f() {
            o.opt("hd", J::Bool(true));
        }
        if self.m() {
            o.meta("bm", J::Code(0));
        } else if self.f() {
            let c = self.src.int(0, 17);
            o.opt("bm", J::Code(c));
        }
    }
    fn direction(&mut self, o: &mut Ob) {
        if self.m() {
            o.meta("d", J::Code(1));
        } else if self.f() {
            o.opt("d", J::Code(3));
        }
    }
    fn fill_rule(&mut self, o: &mut Ob) {
        if self.m() {
            o.meta("r", J::Code(1));
        } else if self.f() {
            o.opt("r", J::Code(2));
        }
    }
    fn transform_shape(&mut self, x: &Xf) -> J {
        let mut o = Ob::new();
        o.req("ty", J::SCode("tr".into()));
        self.shape_meta(&mut o, None);
        self.xf_into(&mut o, x);
        o.j()
    }
    pub fn shape(&mut self, s: &Shape) -> J {
        let (s, hidden) = match s {
            Shape::Hidden(s) => (&**s, true),
            s => (s, false),
        };
        let mut o = Ob::new();
        let ty = match s {
            Shape::Group { .. } => "gr",
            Shape::Rect { .. } => "rc",
            Shape::Ell { .. } => "el",
            Shape::Star(_) => "sr",
            Shape::Path(_) => "sh",
            Shape::Fill { .. } => "fl",
            Shape::Stroke { .. } => "st",
            Shape::GFill { .. } => "gf",
            Shape::GStroke { .. } => "gs",
            Shape::Trim { .. } => "tm",
            Shape::Ignored(i) => match i {
                Ignored::Pucker => "pb",
                Ignored::Merge => "mm",
                Ignored::Offset => "op",
                Ignored::Twist => "tw",
                Ignored::Rounded => "rd",
                Ignored::Repeater => "rp",
            },
            Shape::Hidden(_) => unreachable!(),
        };
        o.req("ty", J::SCode(ty.into()));
        self.shape_meta(&mut o, if matches!(s, Shape::Ignored(_)) { None } else { Some(hidden) });
        match s {
            Shape::Group { items, xf, xf_at } => {
                if self.m() {
                    o.meta("np", J::Real(items.len() as f64));
                }
                if self.m() {
                    let n = self.src.int(0, 255);
                    o.meta("cix", J::Int(n));
                }
                let mut arr: Vec<J> = vec![];
                for (i, it) in items.iter().enumerate() {
                    if let Some(x) = xf
                        && i == (*xf_at).min(items.len())
                    {
                        let j = self.transform_shape(x);
                        arr.push(j);
                    }
                    let j = self.shape(it);
                    arr.push(j);
                }
                if let Some(x) = xf
                    && *xf_at >= items.len()
                {
                    let j = self.transform_shape(x);
                    arr.push(j);
                }
                o.req("it", J::Arr(arr));
            }
            Shape::Rect { p, s, r } => {
                self.direction(&mut o);
                let j = self.pos(p);
                o.req("p", j);
                let j = self.vecn(s, 0.0);
                o.req("s", j);
                let j = self.scalar(r);
                o.req("r", j);
            }
            Shape::Ell { p, s } => {
                self.direction(&mut o);
                let j = self.pos(p);
                o.req("p", j);
                let j = self.vecn(s, 0.0);
                o.req("s", j);
            }
            Shape::Star(st) => {
                self.direction(&mut o);
                o.req("sy", J::Code(if st.polygon { 2 } else { 1 }));
                let j = self.pos(&st.p);
                o.req("p", j);
                for (k, v) in [("or", &st.or), ("os", &st.os), ("r", &st.r), ("pt", &st.pt)] {
                    let j = self.scalar(v);
                    o.req(k, j);
                }
                for (k, v) in [("ir", &st.ir), ("is", &st.is)] {
                    if let Some(v) = v {
                        let j = self.scalar(v);
                        o.opt(k, j);
                    }
                }
            }
            Shape::Path(p) => {
                self.direction(&mut o);
                let j = self.path(p);
                o.req("ks", j);
            }
            Shape::Fill { c, o: op } => {
                self.fill_rule(&mut o);
                let j = self.color(c);
                o.req("c", j);
                let j = self.scalar(op);
                o.req("o", j);
            }
            Shape::Stroke { c, o: op, st } => {
                let j = self.color(c);
                o.req("c", j);
                let j = self.scalar(op);
                o.req("o", j);
                self.stroke_into(&mut o, st);
            }
            Shape::GFill { g, o: op } => {
                self.fill_rule(&mut o);
                let j = self.scalar(op);
                o.req("o", j);
                self.grad_into(&mut o, g);
            }
            Shape::GStroke { g, o: op, st } => {
                let j = self.scalar(op);
                o.req("o", j);
                self.grad_into(&mut o, g);
                self.stroke_into(&mut o, st);
            }
            Shape::Trim { s, e, o: off } => {
                let j = self.scalar(s);
                o.req("s", j);
                let j = self.scalar(e);
                o.req("e", j);
                let j = self.scalar(off);
                o.req("o", j);
                if self.f() {
                    let c = self.src.int(1, 2);
                    o.opt("m", J::Code(c));
                }
            }
            Shape::Hidden(_) => unreachable!(),
            Shape::Ignored(i) => match i {
                Ignored::Pucker => {
                    if self.src.pct(70) {
                        let j = self.static_num();
                        o.opt("a", j);
                    }
                }
                Ignored::Merge => {
                    if self.src.pct(70) {
                        let c = self.src.int(1, 5);
                        o.opt("mm", J::Code(c));
                    }
                }
                Ignored::Offset => {
                    if self.src.pct(70) {
                        let j = self.static_num();
                        o.opt("a", j);
                    }
                    if self.src.pct(70) {
                        let c = self.src.int(1, 3);
                        o.opt("lj", J::Code(c));
                    }
                    if self.src.pct(70) {
                        let j = self.static_num();
                        o.opt("ml", j);
                    }
                }
                Ignored::Twist => {
                    let j = self.static_num();
                    o.req("a", j);
                    let (x, y) = (self.num(), self.num());
                    let j = self.pos(&Anim::Static([x, y]));
                    o.req("p", j);
                }
                Ignored::Rounded => {
                    let j = self.static_num();
                    o.req("r", j);
                }
                Ignored::Repeater => {
                    let j = self.static_num();
                    o.req("c", j);
                    if self.src.pct(60) {
                        let j = self.static_num();
                        o.opt("o", j);
                    }
                    if self.src.pct(60) {
                        let c = self.src.int(1, 2);
                        o.opt("m", J::Code(c));
                    }
                    // the repeater's transform has no shape type tag requirement
                    let mut t = Ob::new();
                    if self.src.pct(50) {
                        let w = self.word();
                        t.meta("nm", J::Str(w));
                    }
                    self.xf_into(&mut t, &Xf::identity());
                    for k in ["so", "eo"] {
                        if self.src.pct(60) {
                            let j = self.static_num();
                            t.opt(k, j);
                        }
                    }
                    o.req("tr", t.j());
                }
            },
        }
        o.j()
    }

    fn mask(&mut self, m: &Mask) -> J {
        let mut o = Ob::new();
        if let Some(p) = &m.path {
            let j = self.path(p);
            o.opt("pt", j);
        }
        if let Some(op) = &m.o {
            let j = self.scalar(op);
            o.opt("o", j);
        }
        for k in ["nm", "mn"] {
            if self.m() {
                let w = self.word();
                o.meta(k, J::Str(w));
            }
        }
        if self.m() {
            o.meta("inv", J::Bool(false));
        } else if self.f() {
            o.opt("inv", J::Bool(true));
        }
        if self.f() {
            let c = self.src.pick(&["n", "a", "s", "i", "l", "d", "f"]);
            o.opt("mode", J::SCode(c.into()));
        } else if self.m() {
            o.meta("mode", J::SCode("a".into()));
        }
        if self.f() {
            let j = self.static_num();
            o.opt("x", j);
        }
        o.j()
    }

    pub fn layer(&mut self, l: &Layer) -> J {
        let mut o = Ob::new();
        let ty = match &l.kind {
            Kind::Precomp { .. } => 0,
            Kind::Solid { .. } => 1,
            Kind::Image { .. } => 2,
            Kind::Null => 3,
            Kind::Shape(_) => 4,
        };
        o.req("ty", J::Code(ty));
        if let Some(n) = &l.name {
            o.opt("nm", J::Str(n.clone()));
        }
        if let Some(n) = l.ind {
            o.opt("ind", J::Int(n as i64));
        }
        if let Some(n) = l.parent {
            o.opt("parent", J::Int(n as i64));
        }
        o.req("ip", J::Real(l.ip));
        o.req("op", J::Real(l.op));
        match (&l.kind, l.st) {
            (Kind::Precomp { .. }, st) => o.req("st", J::Real(st.unwrap_or(0.0))),
            (_, Some(st)) => o.opt("st", J::Real(st)),
            _ => {}
        }
        if let Some(s) = l.sr {
            o.opt("sr", J::Real(s));
        } else if self.m() {
            o.meta("sr", J::Real(1.0));
        }
        match l.hidden {
            Some(h) => o.opt("hd", J::Bool(h)),
            None => {
                if self.m() {
                    o.meta("hd", J::Bool(false));
                }
            }
        }
        match l.td {
            Some(t) => o.opt("td", J::B01(t)),
            None => {
                if self.m() {
                    o.meta("td", J::B01(false));
                }
            }
        }
        if let Some(t) = l.tt {
            o.opt("tt", J::Code(t as i64));
        }
        if let Some(t) = l.tp {
            o.opt("tp", J::Real(t as f64));
        } else if l.tt.is_none() && self.m() {
            // without a matte mode there is nothing to refer to
            let t = self.src.pick(&[1.0, 0.0, -1.0, -7.0, 1e12]);
            o.meta("tp", J::Real(t));
        }
        match l.bm {
            Some(b) => o.opt("bm", J::Code(b as i64)),
            None => {
                if self.m() {
                    o.meta("bm", J::Code(0));
                }
            }
        }
        let mut x = Ob::new();
        self.xf_into(&mut x, &l.xf);
        o.req("ks", x.j());
        if let Some(ms) = &l.masks {
            let arr = ms.iter().map(|m| self.mask(m)).collect();
            o.opt("masksProperties", J::Arr(arr));
            if self.m() {
                o.meta("hasMask", J::Bool(true));
            }
        } else if self.m() {
            o.meta("hasMask", J::Bool(false));
        }
        for k in ["mn", "cl", "ln", "tg"] {
            if self.m() {
                let w = self.word();
                o.meta(k, J::Str(w));
            }
        }
        for k in ["ddd", "ao"] {
            if self.m() {
                o.meta(k, J::B01(false));
            } else if self.f() {
                o.opt(k, J::B01(true));
            }
        }
        if self.m() {
            o.meta("mb", J::Bool(false));
        }
        if self.f() {
            o.opt("ct", J::B01(true));
        }
        if self.f() {
            let w = self.word();
            o.opt("cp", J::Str(w));
        }
        match &l.kind {
            Kind::Null => {}
            Kind::Shape(s) => {
                let arr = s.iter().map(|s| self.shape(s)).collect();
                o.req("shapes", J::Arr(arr));
            }
            Kind::Precomp { ref_id, w, h } => {
                o.req("refId", J::Str(ref_id.clone()));
                o.req("w", J::Real(*w));
                o.req("h", J::Real(*h));
                if self.f() {
                    let j = self.static_num();
                    o.opt("tm", j);
                }
            }
            Kind::Solid { w, h, color } => {
                o.req("sw", J::Real(*w));
                o.req("sh", J::Real(*h));
                o.req("sc", J::Str(color.clone()));
            }
            Kind::Image { ref_id } => {
                o.req("refId", J::Str(ref_id.clone()));
            }
        }
        o.j()
    }

    fn asset(&mut self, a: &Asset) -> J {
        let mut o = Ob::new();
        match a {
            Asset::Precomp { id, layers } => {
                o.req("id", J::Str(id.clone()));
                for k in ["nm", "mn"] {
                    if self.m() {
                        let w = self.word();
                        o.meta(k, J::Str(w));
                    }
                }
                if self.m() {
                    o.meta("fr", J::Real(30.0));
                }
                if self.f() {
                    let b = self.src.pct(50);
                    o.opt("xt", J::B01(b));
                }
                let arr = layers.iter().map(|l| self.layer(l)).collect();
                o.req("layers", J::Arr(arr));
            }
            Asset::Image { id, w, h } => {
                o.req("id", J::Str(id.clone()));
                for k in ["nm", "mn", "u", "sid"] {
                    if self.m() {
                        let w = self.word();
                        o.meta(k, J::Str(w));
                    }
                }
                o.req("p", J::Str("img_0.png".into()));
                if self.m() {
                    let b = self.src.pct(50);
                    o.meta("e", J::B01(b));
                }
                if let Some(w) = w {
                    o.opt("w", J::Real(*w));
                }
                if let Some(h) = h {
                    o.opt("h", J::Real(*h));
                }
                if self.f() {
                    o.opt("t", J::Str("seq".into()));
                }
            }
        }
        o.j()
    }

    pub fn comp(&mut self, c: &Comp) -> J {
        let mut o = Ob::new();
        if self.m() {
            o.meta("v", J::Str("5.5.2".into()));
        }
        for k in ["nm", "mn"] {
            if self.m() {
                let w = self.word();
                o.meta(k, J::Str(w));
            }
        }
        if self.m() {
            o.meta("ver", J::Int(10000));
        }
        o.req("fr", J::Real(c.fr));
        o.req("ip", J::Real(c.ip));
        o.req("op", J::Real(c.op));
        o.req("w", J::Int(c.w as i64));
        o.req("h", J::Int(c.h as i64));
        if self.m() {
            o.meta("ddd", J::B01(false));
        }
        if let Some(a) = &c.assets {
            let arr = a.iter().map(|a| self.asset(a)).collect();
            o.opt("assets", J::Arr(arr));
        }
        let arr = c.layers.iter().map(|l| self.layer(l)).collect();
        o.req("layers", J::Arr(arr));
        if self.m() {
            let n = self.src.usize(0, 3);
            let mut arr = vec![];
            for _ in 0..n {
                let mut m = Ob::new();
                if self.src.pct(70) {
                    let w = self.word();
                    m.opt("cm", J::Str(w));
                }
                if self.src.pct(70) {
                    let n = self.num();
                    m.opt("tm", J::Real(n));
                }
                if self.src.pct(70) {
                    let n = self.num();
                    m.opt("dr", J::Real(n));
                }
                arr.push(m.j());
            }
            o.meta("markers", J::Arr(arr));
        }
        if self.m() {
            let mut m = Ob::new();
            for (k, r) in META_KEYS {
                if self.src.pct(60) {
                    let v = if r { J::Any(json!(["a", {"b": 1}])) } else { J::Str(self.word()) };
                    m.opt(k, v);
                }
            }
            o.meta("meta", m.j());
        }
        if self.m() {
            o.meta("metadata", J::Any(json!({"any": [1, 2.5, null, {"x": true}]})));
        }
        o.j()
    }
}

const META_KEYS: [(&str, bool); 5] = [("a", false), ("d", false), ("tc", false), ("g", false), ("k", true)];
