//! Weighted generator of abstract documents and of frames worth looking at.

use crate::ast::*;
use crate::src::Src;
use kurbo::Affine;

/// Weights and percentages of one kind of document.
#[derive(Clone, Debug)]
pub struct Prof {
    pub layers: (usize, usize, usize),
    /// shape, null, precomp, solid, image
    pub kinds: [u32; 5],
    pub assets: usize,
    pub image_assets: u32,
    pub anim: u32,
    pub keys: usize,
    pub ease: u32,
    pub hold: u32,
    pub overshoot: u32,
    pub ind: u32,
    pub parent: u32,
    pub dangling: u32,
    pub matte: u32,
    pub tp: u32,
    pub mask: u32,
    pub hidden: u32,
    pub window: u32,
    pub xf: u32,
    pub omit: u32,
    pub split: u32,
    pub skew: u32,
    pub opacity: u32,
    /// group, rect, ellipse, star, path, fill, stroke, gfill, gstroke, trim, ignored
    pub shapes: [u32; 11],
    pub items: (usize, usize, usize),
    pub gdepth: usize,
    pub tr: u32,
    pub stretch: u32,
    /// stretches and times for which every sum and quotient is exact
    pub dyadic: bool,
    pub bm: u32,
    /// shapes marked hidden
    pub hide: u32,
    /// all transparency stops of a gradient alike
    pub uniform: bool,
    /// one of the counts of a document far above the usual
    pub big: u32,
    /// unresolvable and cyclic references, duplicate and unsorted keyframes, empty lists
    pub wild: bool,
    /// unusual magnitudes
    pub wide: bool,
}

impl Default for Prof {
    /// One layer with simple filled shapes.
    fn default() -> Self {
        Prof {
            layers: (1, 1, 2),
            kinds: [100, 0, 0, 0, 0],
            assets: 0,
            image_assets: 0,
            anim: 0,
            keys: 3,
            ease: 60,
            hold: 15,
            overshoot: 25,
            ind: 50,
            parent: 0,
            dangling: 0,
            matte: 0,
            tp: 0,
            mask: 0,
            hidden: 0,
            window: 0,
            xf: 0,
            omit: 30,
            split: 0,
            skew: 0,
            opacity: 0,
            shapes: [0, 30, 20, 0, 30, 0, 0, 0, 0, 0, 0],
            items: (1, 1, 3),
            gdepth: 0,
            tr: 0,
            stretch: 0,
            dyadic: false,
            bm: 0,
            hide: 1,
            uniform: false,
            big: 1,
            wild: false,
            wide: false,
        }
    }
}
impl Prof {
    /// Everything at once.
    pub fn broad() -> Self {
        Prof {
            layers: (1, 4, 10),
            kinds: [60, 10, 20, 5, 5],
            assets: 3,
            image_assets: 15,
            anim: 25,
            keys: 4,
            ease: 50,
            hold: 15,
            overshoot: 25,
            ind: 75,
            parent: 35,
            dangling: 10,
            matte: 12,
            tp: 30,
            mask: 15,
            hidden: 8,
            window: 30,
            xf: 40,
            omit: 30,
            split: 15,
            skew: 15,
            opacity: 40,
            shapes: [20, 14, 10, 8, 20, 16, 10, 5, 3, 0, 4],
            items: (1, 3, 8),
            gdepth: 3,
            tr: 60,
            stretch: 40,
            dyadic: false,
            bm: 10,
            hide: 3,
            uniform: false,
            big: 2,
            wild: false,
            wide: false,
        }
    }
    /// Broad with trims.
    pub fn all() -> Self {
        let mut p = Self::broad();
        p.shapes[9] = 8;
        p
    }
    pub fn wild() -> Self {
        let mut p = Self::all();
        p.wild = true;
        p.layers = (0, 4, 9);
        p.items = (0, 3, 7);
        p
    }
}

pub struct Gen<'a, 'b, 'l> {
    pub s: &'a mut Src<'l>,
    pub p: &'b Prof,
}

/// The double nearest to a decimal of three digits, which every parser reads back exactly.
fn milli(x: f64) -> f64 {
    (x * 1000.0).round() / 1000.0
}

fn lerp_n(a: f64, b: f64, n: usize, k: usize) -> f64 {
    if n <= 1 { a } else { a + (b - a) * k as f64 / (n - 1) as f64 }
}

impl Gen<'_, '_, '_> {
    pub fn num(&mut self, lo: f64, hi: f64) -> f64 {
        if self.p.wide && self.s.pct(12) {
            let m = self.s.pick(&[0.0, 1e-9, -1e-9, 1e-3, 99999.0, -99999.0, 500000.25, 0.1 + 0.2, 1.0 / 3.0]);
            return m;
        }
        if self.s.pct(8) {
            // values with a meaning of their own
            let m = self.s.pick(&[0.0, 1.0, -1.0, 100.0, -100.0, 50.0, 90.0, -90.0, 180.0, 360.0, lo, hi]);
            if lo <= m && m <= hi {
                return m;
            }
        }
        self.s.num(lo, hi)
    }
    pub fn coord(&mut self) -> f64 {
        self.num(-500.0, 500.0)
    }
    pub fn v2(&mut self) -> V2 {
        [self.coord(), self.coord()]
    }
    pub fn size(&mut self) -> V2 {
        let v = [self.num(1.0, 600.0), self.num(1.0, 600.0)];
        match self.s.below(40) {
            37 => [0.0, v[1]],
            38 => [v[0], 0.0],
            39 => [0.0, 0.0],
            _ => v,
        }
    }
    fn time_step(&mut self) -> f64 {
        if self.p.dyadic {
            self.s.grid(0.25, 20.0, 0.25)
        } else {
            match self.s.below(8) {
                0..=2 => self.s.grid(1.0, 20.0, 1.0),
                3 | 4 => self.s.grid(0.25, 20.0, 0.25),
                5 | 6 => self.s.grid(0.01, 20.0, 0.01),
                _ => self.s.grid(0.001, 0.5, 0.001),
            }
        }
    }
    pub fn time(&mut self, lo: f64, hi: f64) -> f64 {
        if self.p.dyadic || self.s.pct(60) {
            let step = if self.s.pct(40) { 0.25 } else { 1.0 };
            self.s.grid(lo, hi, step)
        } else {
            let step = self.s.pick(&[0.01, 0.01, 0.01, 0.001]);
            self.s.grid(lo, hi, step)
        }
    }
    /// Strictly increasing keyframe times (in wild documents any order).
    pub fn times(&mut self) -> Vec<f64> {
        if self.p.wild && self.s.pct(2) {
            return vec![];
        }
        let n = if self.s.pct(12) { 1 } else { self.s.count(2, self.p.keys.max(2), 6) };
        let n = if self.p.big > 0 && self.s.below(400) == 399 { n + self.s.usize(5, 60) } else { n };
        let mut t = self.time(-10.0, 30.0);
        let mut out = vec![];
        for _ in 0..n {
            out.push(t);
            if self.p.wild && self.s.pct(20) {
                t = if self.s.pct(60) { t } else { self.time(-10.0, 60.0) };
            } else {
                t = (t + self.time_step()) * 1000.0;
                t = t.round() / 1000.0;
            }
        }
        out
    }
    pub fn ease(&mut self) -> Option<Ease> {
        if !self.s.pct(self.p.ease) {
            return None;
        }
        let (ox, mut ix) = (self.s.grid(0.0, 1.0, 0.001), self.s.grid(0.0, 1.0, 0.001));
        if ox - ix > 0.85 {
            ix = ((ox - 0.85) * 1000.0).ceil() / 1000.0;
        }
        let (lo, hi) = if self.s.pct(self.p.overshoot) { (-1.0, 2.0) } else { (0.0, 1.0) };
        let (oy, iy) = (self.s.grid(lo, hi, 0.001), self.s.grid(lo, hi, 0.001));
        let mut e = Ease { o: [ox, oy], i: [ix, iy], no_o: false, no_i: false };
        if self.s.pct(20) {
            // curves with a meaning of their own
            (e.o, e.i) = match self.s.below(8) {
                0 => ([0.333, 0.0], [0.667, 1.0]),
                1 => ([0.167, 0.167], [0.833, 0.833]),
                2 => ([ox, ox], [ix, ix]),
                3 => ([ox, oy], [milli(1.0 - ox).max(milli(ox - 0.85)), milli(1.0 - oy)]),
                4 => ([ox, oy], [ox, oy]),
                5 => ([0.0, oy], [1.0, iy]),
                6 => ([0.0, 0.0], [0.58, 1.0]),
                _ => ([ox, ox], [ix, iy]),
            };
        }
        match self.s.below(16) {
            14 => (e.o, e.no_o) = ([0.0, 0.0], true),
            15 => (e.i, e.no_i) = ([1.0, 1.0], true),
            _ => {}
        }
        Some(e)
    }
    pub fn anim<T: Clone>(&mut self, f: &mut dyn FnMut(&mut Self) -> T) -> Anim<T> {
        if !self.s.pct(self.p.anim) {
            return Anim::Static(f(self));
        }
        let ts = self.times();
        let mut out: Vec<Key<T>> = vec![];
        for t in ts {
            // values also stay or return
            let v = if !out.is_empty() && self.s.pct(12) { out[self.s.usize(0, out.len() - 1)].v.clone() } else { f(self) };
            out.push(Key { t, v, ease: self.ease(), hold: self.s.pct(self.p.hold) });
        }
        Anim::Keys(out)
    }
    pub fn a_num(&mut self, lo: f64, hi: f64) -> Anim<f64> {
        self.anim(&mut |g| g.num(lo, hi))
    }
    pub fn a_v2(&mut self) -> Anim<V2> {
        self.anim(&mut |g| g.v2())
    }
    pub fn opacity(&mut self) -> Anim<f64> {
        let p = self.p.opacity;
        if p == 0 { Anim::Static(100.0) } else { self.anim(&mut |g| if g.s.pct(p) { if g.s.pct(4) { g.s.pick(&[0.0, 120.0, -15.0, 0.5]) } else { g.s.num(0.0, 100.0) } } else { 100.0 }) }
    }
    pub fn opt_opacity(&mut self) -> Option<Anim<f64>> {
        if self.s.pct(self.p.omit) { None } else { Some(self.opacity()) }
    }
    /// kind 0: layer, 1: group
    pub fn xf(&mut self) -> Xf {
        let p = self.p.clone();
        let mut x = Xf::identity();
        let on = |g: &mut Self| g.s.pct(p.xf);
        if on(self) {
            x.a = Some(self.a_v2());
        } else if !self.s.pct(p.omit) {
            x.a = Some(Anim::Static([0.0, 0.0]));
        }
        let split = self.s.pct(p.split);
        if on(self) {
            x.p = if split { Pos::Split(self.a_num(-500.0, 500.0), self.a_num(-500.0, 500.0)) } else { Pos::Vec(self.a_v2()) };
        } else if split {
            x.p = Pos::Split(Anim::Static(0.0), Anim::Static(0.0));
        }
        if on(self) {
            x.s = Some(self.anim(&mut |g| {
                let one = |g: &mut Self| {
                    let v = g.num(-250.0, 250.0);
                    if v.abs() < 5.0 && !g.p.wide { 80.0 } else { v }
                };
                let a = one(g);
                let b = one(g);
                match g.s.below(40) {
                    37 => [0.0, b],
                    38 => [a, 0.0],
                    39 => [0.0, 0.0],
                    0..=19 => [a, a],
                    _ => [a, b],
                }
            }));
        } else if self.s.pct(p.omit) {
            x.s = None;
        }
        let rsplit = self.s.pct(p.split);
        if on(self) {
            let a = self.a_num(-400.0, 400.0);
            x.r = Some(if rsplit { Rot::Split(a) } else { Rot::Plain(a) });
        } else if self.s.pct(p.omit) {
            x.r = None;
        } else if rsplit {
            x.r = Some(Rot::Split(Anim::Static(0.0)));
        }
        if self.s.pct(p.skew) {
            x.sk = Some(self.a_num(-60.0, 60.0));
            if self.s.pct(70) {
                x.sa = Some(self.a_num(-180.0, 180.0));
            }
        } else if !self.s.pct(p.omit) {
            x.sk = Some(Anim::Static(0.0));
            x.sa = Some(Anim::Static(0.0));
        }
        x.o = self.opt_opacity();
        x
    }
    fn bez_of(&mut self, n: usize, closed: Option<bool>, tangents: u32) -> Bez {
        let mut b = Bez { closed, ..Default::default() };
        let tan = |g: &mut Self| {
            if g.s.pct(tangents) { [g.num(-200.0, 200.0), g.num(-200.0, 200.0)] } else { [0.0, 0.0] }
        };
        for _ in 0..n {
            let v = self.v2();
            b.v.push(v);
            let i = tan(self);
            b.i.push(i);
            let o = tan(self);
            b.o.push(o);
        }
        if n >= 2 && self.s.pct(25) {
            // vertices that coincide, tangents that mirror or reach the neighbour
            let k = self.s.usize(0, n - 1);
            let j = (k + 1) % n;
            match self.s.below(5) {
                0 => b.v[n - 1] = b.v[0],
                1 => b.v[k] = b.v[j],
                2 => b.o[k] = [-b.i[k][0], -b.i[k][1]],
                3 => {
                    b.o[k] = [milli(b.v[j][0] - b.v[k][0]), milli(b.v[j][1] - b.v[k][1])];
                    b.i[j] = [-b.o[k][0], -b.o[k][1]];
                }
                _ => {
                    b.o[k] = [0.0, 0.0];
                    b.i[j] = [0.0, 0.0];
                }
            }
        }
        b
    }
    pub fn bez(&mut self) -> Bez {
        let n = if self.p.wild { self.s.count(0, 4, 9) } else { self.s.count(2, 4, 9) };
        let n = if self.p.big > 0 && self.s.below(250) == 249 { n + self.s.usize(8, 80) } else { n };
        let closed = self.s.pick(&[Some(true), Some(false), None]);
        let t = self.s.pick(&[0, 50, 100]);
        self.partial_bez(n, closed, t)
    }
    fn partial_bez(&mut self, n: usize, closed: Option<bool>, tangents: u32) -> Bez {
        let mut b = self.bez_of(n, closed, tangents);
        if self.s.pct(12) {
            // missing tangents count as zero
            let k = self.s.usize(0, n);
            if self.s.pct(50) { b.i.truncate(k) } else { b.o.truncate(k) }
        }
        b
    }
    pub fn path(&mut self) -> PathVal {
        if !self.s.pct(self.p.anim) {
            return PathVal::Static(self.bez());
        }
        let ts = self.times();
        let n = self.s.count(2, 4, 7);
        let closed = self.s.pick(&[Some(true), Some(false), None]);
        let t = self.s.pick(&[0, 50, 100]);
        let m = ts.len();
        let mut out: Vec<PKey> = vec![];
        for (k, time) in ts.into_iter().enumerate() {
            let last = k + 1 == m;
            let omit = k > 0 && last && self.s.pct(35);
            let mut nn = n;
            if self.p.wild && self.s.pct(15) {
                nn = self.s.usize(0, 6);
            }
            let start = if omit || (self.p.wild && self.s.pct(8)) { None } else { Some(self.partial_bez(nn, closed, t)) };
            let end = if !last && self.s.pct(if omit { 80 } else { 30 }) { Some(self.partial_bez(nn, closed, t)) } else { None };
            out.push(PKey { t: time, start, end, ease: self.ease(), hold: self.s.pct(self.p.hold) });
        }
        PathVal::Keys(out)
    }
    pub fn color(&mut self) -> Anim<[f64; 3]> {
        self.anim(&mut |g| {
            let mut c = || g.s.grid(0.0, 1.0, 0.01);
            [c(), c(), c()]
        })
    }
    pub fn stroke(&mut self) -> StrokeP {
        StrokeP {
            w: self.a_num(0.5, 40.0),
            lc: if self.s.pct(80) { Some(self.s.int(1, 3) as u8) } else { None },
            lj: if self.s.pct(80) { Some(self.s.int(1, 3) as u8) } else { None },
            ml: if self.s.pct(60) { Some(self.s.num(1.0, 12.0)) } else { None },
        }
    }
    pub fn grad(&mut self) -> Grad {
        let n = self.s.count(2, 3, 6);
        let n = if self.p.big > 0 && self.s.below(150) == 149 { n + self.s.usize(5, 40) } else { n };
        let alphas = if self.s.pct(35) { self.s.count(1, 2, 4) } else { 0 };
        let uniform = self.p.uniform || self.s.pct(40);
        let spread = self.s.pct(50);
        let stops = self.anim(&mut |g| {
            let mut v = vec![];
            let mut off: Vec<f64> = if g.s.pct(30) {
                (0..n).map(|k| (lerp_n(0.0, 1.0, n, k) * 100.0).round() / 100.0).collect()
            } else {
                (0..n).map(|_| g.s.grid(0.0, 1.0, 0.01)).collect()
            };
            off.sort_by(f64::total_cmp);
            for o in off {
                v.push(o);
                for _ in 0..3 {
                    v.push(g.s.grid(0.0, 1.0, 0.01));
                }
            }
            let al = g.s.grid(0.0, 1.0, 0.01);
            let mut at: Vec<f64> = (0..alphas)
                .map(|k| {
                    if spread {
                        (lerp_n(0.0, 1.0, alphas, k) * 100.0).round() / 100.0
                    } else if g.s.pct(25) {
                        v[4 * g.s.usize(0, n - 1)]
                    } else {
                        g.s.grid(0.0, 1.0, 0.01)
                    }
                })
                .collect();
            at.sort_by(f64::total_cmp);
            for o in at {
                v.push(o);
                v.push(if uniform { al } else { g.s.grid(0.0, 1.0, 0.01) });
            }
            v
        });
        let (from, mut to) = (self.a_v2(), self.a_v2());
        if self.s.pct(4) {
            to = from.clone();
        }
        // sometimes more or fewer stops are declared than provided
        let count = match self.s.below(40) {
            39 if alphas == 0 => n + self.s.usize(1, 3),
            38 if alphas == 0 => 0,
            _ => n,
        };
        Grad { radial: self.s.pick(&[Some(false), Some(true), None]), s: from, e: to, count, stops }
    }
    pub fn star(&mut self) -> Star {
        let polygon = self.s.pct(50);
        let (round_o, round_i) = (self.s.pct(45), self.s.pct(45));
        let lo = if polygon && round_o { 3.0 } else if !polygon && (round_o || round_i) { 2.0 } else if self.p.wide { 0.0 } else { 1.0 };
        let pts = if self.s.pct(75) { self.anim(&mut |g| g.s.grid(lo, 12.0, 1.0)) } else { self.anim(&mut |g| g.s.grid(lo, 12.0, 0.1)) };
        Star {
            polygon,
            p: self.a_v2(),
            or: self.a_num(1.0, 300.0),
            os: if round_o { self.a_num(-100.0, 150.0) } else { Anim::Static(0.0) },
            r: self.a_num(-400.0, 400.0),
            pt: pts,
            ir: if !polygon || self.s.pct(20) { Some(self.a_num(1.0, 200.0)) } else { None },
            is: if !polygon && (round_i || self.s.pct(30)) {
                Some(if round_i { self.a_num(-100.0, 150.0) } else { Anim::Static(0.0) })
            } else {
                None
            },
        }
    }
    pub fn trim(&mut self) -> Shape {
        let pctv = |g: &mut Self| match g.s.below(6) {
            0 => 0.0,
            1 => 100.0,
            2 => g.s.grid(0.0, 100.0, 25.0),
            3 if g.s.pct(20) => g.s.grid(-40.0, 160.0, 10.0),
            _ => g.s.num(0.0, 100.0),
        };
        let s = self.anim(&mut |g| pctv(g));
        let e = self.anim(&mut |g| pctv(g));
        let o = self.anim(&mut |g| if g.s.pct(60) { g.s.num(-720.0, 720.0) } else { 0.0 });
        Shape::Trim { s, e, o }
    }
    pub fn shape(&mut self, depth: usize) -> Shape {
        let s = self.bare_shape(depth);
        if !matches!(s, Shape::Ignored(_)) && self.s.pct(self.p.hide) { Shape::Hidden(Box::new(s)) } else { s }
    }
    fn bare_shape(&mut self, depth: usize) -> Shape {
        let mut w = self.p.shapes;
        if depth == 0 {
            w[0] = 0;
        }
        match self.s.weighted(&w) {
            0 => {
                let items = self.items(depth - 1);
                let xf = if self.s.pct(self.p.tr) { Some(self.xf()) } else { None };
                let xf_at = if self.s.pct(75) { usize::MAX } else { self.s.usize(0, items.len()) };
                Shape::Group { items, xf, xf_at }
            }
            1 => Shape::Rect {
                p: self.a_v2(),
                s: self.anim(&mut |g| g.size()),
                r: if self.s.pct(50) { self.a_num(0.0, 300.0) } else { Anim::Static(0.0) },
            },
            2 => Shape::Ell { p: self.a_v2(), s: self.anim(&mut |g| g.size()) },
            3 => Shape::Star(self.star()),
            4 => Shape::Path(self.path()),
            5 => Shape::Fill { c: self.color(), o: self.opacity() },
            6 => Shape::Stroke { c: self.color(), o: self.opacity(), st: self.stroke() },
            7 => Shape::GFill { g: self.grad(), o: self.opacity() },
            8 => Shape::GStroke { g: self.grad(), o: self.opacity(), st: self.stroke() },
            9 => self.trim(),
            _ => Shape::Ignored(self.s.pick(&[Ignored::Pucker, Ignored::Merge, Ignored::Offset, Ignored::Twist, Ignored::Rounded, Ignored::Repeater])),
        }
    }
    pub fn style(&mut self) -> Shape {
        let w = &self.p.shapes[5..9];
        let w = if w.iter().sum::<u32>() == 0 { vec![1, 0, 0, 0] } else { w.to_vec() };
        match self.s.weighted(&w) {
            0 => Shape::Fill { c: self.color(), o: self.opacity() },
            1 => Shape::Stroke { c: self.color(), o: self.opacity(), st: self.stroke() },
            2 => Shape::GFill { g: self.grad(), o: self.opacity() },
            _ => Shape::GStroke { g: self.grad(), o: self.opacity(), st: self.stroke() },
        }
    }
    pub fn items(&mut self, depth: usize) -> Vec<Shape> {
        let (lo, typ, hi) = self.p.items;
        let n = self.s.count(lo, typ, hi);
        let mut v: Vec<Shape> = (0..n).map(|_| self.shape(depth)).collect();
        let styled = v.iter().any(|s| matches!(s, Shape::Fill { .. } | Shape::Stroke { .. } | Shape::GFill { .. } | Shape::GStroke { .. }));
        if self.s.pct(if styled { 30 } else { 85 }) {
            let st = self.style();
            v.push(st);
        }
        v
    }
    pub fn name(&mut self) -> Option<String> {
        let n = self.s.pick(&["a", "b", "Layer 1", "", "Ünïcödé ✓", "quote\"back\\slash", "long name with spaces", "\u{1F3A8}", "line\nbreak"]);
        let n = match self.s.below(12) {
            // white space belongs to the name
            10 => format!("{}{n}{}", self.s.pick(&[" ", "", "\t"]), self.s.pick(&["", " ", "\n"])),
            11 => {
                let unit = self.s.pick(&["x", "é", "あ", "\u{1F3A8}"]);
                let len = self.s.pick(&[40, 16, 70, 130, 300]);
                format!("{}{}", &"ab"[..self.s.usize(0, 2)], unit.repeat(len))
            }
            _ => n.to_string(),
        };
        if self.s.pct(12) { None } else { Some(n) }
    }
    /// Layers of one array; `assets` are the ids instances may name.
    pub fn layer_set(&mut self, ids: &[String]) -> Vec<Layer> {
        let (lo, typ, hi) = self.p.layers;
        let n = self.s.count(lo, typ, hi);
        let base = self.s.pick(&[1usize, 0, 7]);
        let mut inds: Vec<usize> = (0..n).map(|k| k + base).collect();
        if self.s.pct(30) {
            for k in (1..n).rev() {
                let j = self.s.usize(0, k);
                inds.swap(j, k);
            }
        }
        let mut out: Vec<Layer> = vec![];
        let mut pending: Option<usize> = None;
        for k in 0..n {
            let mut kinds = self.p.kinds;
            if ids.is_empty() && !self.p.wild {
                kinds[2] = 0;
            }
            let kind = match self.s.weighted(&kinds) {
                0 => {
                    let it = self.items(self.p.gdepth);
                    Kind::Shape(it)
                }
                1 => Kind::Null,
                2 => {
                    let id = if ids.is_empty() || self.s.pct(self.p.dangling) { "missing".to_string() } else { self.s.pick(ids) };
                    Kind::Precomp { ref_id: id, w: self.s.num(1.0, 500.0), h: self.s.num(1.0, 500.0) }
                }
                3 => Kind::Solid { w: self.s.num(1.0, 500.0), h: self.s.num(1.0, 500.0), color: "#ff8800".into() },
                _ => Kind::Image { ref_id: "image_0".into() },
            };
            let window = self.s.pct(self.p.window);
            let (ip, op) = if window {
                let ip = self.time(-10.0, 40.0);
                let op = if self.s.pct(8) { milli(ip - self.s.pick(&[0.0, 1.0])) } else { milli(ip + self.time(0.25, 40.0)) };
                (ip, op)
            } else {
                (-1000.0, 1000.0)
            };
            let pre = matches!(kind, Kind::Precomp { .. });
            let st = if pre {
                Some(if self.s.pct(self.p.stretch) { self.time(-20.0, 30.0) } else { 0.0 })
            } else if self.s.pct(50) {
                Some(self.time(-20.0, 30.0))
            } else {
                None
            };
            let sr = if self.s.pct(self.p.stretch) {
                Some(if self.s.pct(6) {
                    self.s.pick(&[-1.0, -2.0, -0.5])
                } else if self.p.dyadic || self.s.pct(50) {
                    self.s.pick(&[1.0, 2.0, 0.5, 4.0, 0.25])
                } else { self.s.grid(0.1, 5.0, 0.1) })
            } else if self.s.pct(20) {
                Some(1.0)
            } else {
                None
            };
            let hidden = if self.s.pct(self.p.hidden) { Some(true) } else if self.s.pct(15) { Some(false) } else { None };
            let ind = if self.s.pct(self.p.ind) { Some(inds[k]) } else { None };
            let (mut td, mut tt, mut tp) = (None, None, None);
            if self.s.pct(self.p.matte) {
                match self.s.weighted(&[50, 40, 10]) {
                    0 => td = Some(true),
                    1 => tt = Some(1),
                    _ => {
                        td = Some(true);
                        tt = Some(1)
                    }
                }
            } else if pending.is_some() && self.s.pct(60) {
                tt = Some(1);
            }
            if tt.is_some() {
                tt = Some(self.s.int(1, 4) as u8);
                if self.p.wild && self.s.pct(10) {
                    tt = Some(0);
                }
                if self.s.pct(self.p.tp) {
                    // an explicit source; while an implicit one is pending only that one, so that consumption is unambiguous
                    if let Some(q) = pending {
                        tp = out[q].ind;
                    } else if self.p.wild {
                        tp = Some(self.s.usize(0, n + base + 1));
                    } else if k + 1 < n || k > 0 {
                        let j = self.s.usize(0, n - 1);
                        if j != k {
                            tp = Some(inds[j]);
                        }
                    }
                }
            }
            if td.is_none() && self.s.pct(10) {
                td = Some(false);
            }
            let masks = if self.s.pct(self.p.mask) {
                let m = self.s.count(1, 2, 4);
                Some(
                    (0..m)
                        .map(|_| {
                            let path = if self.s.pct(8) { None } else { Some(self.path()) };
                            Mask { path, o: if self.s.pct(40) { Some(self.opacity()) } else { None } }
                        })
                        .collect(),
                )
            } else if self.s.pct(5) {
                Some(vec![])
            } else {
                None
            };
            let l = Layer {
                kind,
                name: self.name(),
                ind,
                parent: None,
                ip,
                op,
                st,
                sr,
                hidden,
                td,
                tt,
                tp,
                xf: self.xf(),
                masks,
                bm: if self.s.pct(self.p.bm) { Some(self.s.int(0, 17) as u8) } else { None },
            };
            if crate::refren::is_matte_source(&l) {
                pending = Some(k);
            } else if l.tt.is_some() {
                pending = None;
            }
            out.push(l);
        }
        // parents: any other layer, before or after, without cycles
        for k in 0..n {
            if !self.s.pct(self.p.parent) {
                continue;
            }
            if self.s.pct(self.p.dangling) {
                out[k].parent = Some(base + n + self.s.usize(0, 3));
                continue;
            }
            let j = self.s.usize(0, n - 1);
            if self.p.wild {
                out[k].parent = Some(inds[j]);
                continue;
            }
            if let Some(ind) = out[j].ind
                && !ancestors(&out, j).contains(&k)
            {
                out[k].parent = Some(ind);
            }
        }
        if !self.p.wild {
            // explicit matte references must not form cycles
            for k in 0..n {
                if out[k].tp.is_some() && matte_cycle(&out, k) {
                    out[k].tp = None;
                    if matte_cycle(&out, k) {
                        out[k].tt = None;
                    }
                }
            }
            for k in 0..n {
                if matte_cycle(&out, k) {
                    out[k].tt = None;
                }
            }
        } else if n > 1 && self.s.pct(15) {
            let (a, b) = (self.s.usize(0, n - 1), self.s.usize(0, n - 1));
            out[a].ind = out[b].ind; // duplicate index
        }
        out
    }
    /// A plain layer that moves, turns or scales a little.
    fn nudge(&mut self) -> Xf {
        let mut x = Xf::identity();
        match self.s.below(4) {
            0 => x.p = Pos::Vec(Anim::Static([self.s.grid(-9.0, 9.0, 0.5), self.s.grid(-9.0, 9.0, 0.5)])),
            1 => x.r = Some(Rot::Plain(Anim::Static(self.s.grid(-90.0, 90.0, 1.0)))),
            2 => x.s = Some(Anim::Static([self.s.pick(&[100.0, 90.0, 110.0]), self.s.pick(&[100.0, 110.0, 95.0])])),
            _ => {}
        }
        x
    }
    fn plain(&mut self, kind: Kind) -> Layer {
        Layer {
            kind,
            name: self.name(),
            ind: None,
            parent: None,
            ip: -1000.0,
            op: 1000.0,
            st: None,
            sr: None,
            hidden: None,
            td: None,
            tt: None,
            tp: None,
            xf: self.nudge(),
            masks: None,
            bm: None,
        }
    }
    /// Raises one count of the document far above what is usual, in every way the profile knows.
    fn enlarge(&mut self, layers: &mut Vec<Layer>, assets: &mut Vec<Asset>) {
        if layers.is_empty() {
            return;
        }
        let k = self.s.usize(0, layers.len() - 1);
        let p = self.p;
        let ways = [
            p.parent > 0,
            p.gdepth > 0,
            true,
            true,
            p.assets > 0,
            p.mask > 0,
            p.matte > 0,
        ];
        match self.s.weighted(&ways.map(u32::from)) {
            0 => {
                // a long chain of parents
                let n = self.s.usize(9, 70);
                layers[k].parent = Some(1000);
                for j in 0..n {
                    let mut l = self.plain(Kind::Null);
                    l.ind = Some(1000 + j);
                    l.parent = if j + 1 < n { Some(1001 + j) } else { None };
                    layers.push(l);
                }
            }
            1 => {
                // deep groups
                let n = self.s.usize(9, 40);
                if let Kind::Shape(v) = &mut layers[k].kind {
                    let mut v = std::mem::take(v);
                    for _ in 0..n {
                        let xf = if self.s.pct(50) { Some(self.nudge()) } else { None };
                        v = vec![Shape::Group { items: v, xf, xf_at: usize::MAX }];
                        if self.s.pct(10) {
                            let s = self.shape(0);
                            v.push(s);
                        }
                    }
                    layers[k].kind = Kind::Shape(v);
                }
            }
            2 => {
                // many shapes, or many groups of a few
                let n = self.s.usize(20, 150);
                let grouped = self.s.pct(50);
                if let Kind::Shape(v) = &mut layers[k].kind {
                    v.retain(|s| !matches!(s, Shape::Trim { .. }));
                    if grouped && v.len() <= 8 {
                        let g = Shape::Group { items: std::mem::take(v), xf: None, xf_at: 0 };
                        *v = vec![g; n / 2];
                    } else {
                        let style = |s: &Shape| matches!(s, Shape::Fill { .. } | Shape::Stroke { .. } | Shape::GFill { .. } | Shape::GStroke { .. });
                        let flat: Vec<Shape> = v.iter().filter(|s| !style(s) && !matches!(s, Shape::Group { .. })).cloned().collect();
                        for j in 0..if flat.is_empty() { 0 } else { n } {
                            v.insert(0, flat[j % flat.len()].clone());
                        }
                    }
                }
            }
            3 => {
                // many layers
                let n = self.s.usize(20, 90);
                for _ in 0..n {
                    let it = if self.s.pct(30) { self.items(0) } else { vec![Shape::Ell { p: Anim::Static([0.0; 2]), s: Anim::Static([9.0; 2]) }, self.style()] };
                    let l = self.plain(Kind::Shape(it));
                    layers.push(l);
                }
            }
            4 => {
                // a long chain of precompositions
                let n = self.s.usize(6, 24);
                let link = |g: &mut Self, j: usize| {
                    let mut l = g.plain(Kind::Precomp { ref_id: format!("link{j}"), w: 50.0, h: 50.0 });
                    l.st = Some(g.s.grid(-4.0, 4.0, 0.25));
                    l.sr = g.s.pick(&[None, Some(1.0), Some(2.0), Some(0.5), Some(-1.0)]);
                    if g.s.pct(30) && g.p.opacity > 0 {
                        l.xf.o = Some(Anim::Static(90.0));
                    }
                    l
                };
                let l = link(self, 0);
                layers.push(l);
                for j in 0..n {
                    let v = if j + 1 < n { vec![link(self, j + 1)] } else { self.layer_set(&[]) };
                    assets.push(Asset::Precomp { id: format!("link{j}"), layers: v });
                }
            }
            5 => {
                // many masks
                let n = self.s.usize(6, 40);
                let v: Vec<Mask> = (0..n).map(|_| Mask { path: Some(PathVal::Static(self.bez())), o: None }).collect();
                layers[k].masks = Some(v);
            }
            _ => {
                // a chain of layers each of which is the matte of the next
                let n = self.s.usize(4, 30);
                for j in 0..n {
                    let it = vec![Shape::Ell { p: Anim::Static([0.0; 2]), s: Anim::Static([9.0; 2]) }, self.style()];
                    let mut l = self.plain(Kind::Shape(it));
                    l.td = Some(true);
                    l.tt = if j == 0 { None } else { Some(self.s.int(1, 4) as u8) };
                    layers.push(l);
                }
                let it = vec![self.style()];
                let mut l = self.plain(Kind::Shape(it));
                l.tt = Some(1);
                layers.push(l);
            }
        }
    }
    pub fn comp(&mut self) -> Comp {
        let w = self.s.usize(1, 1000);
        let h = self.s.usize(1, 1000);
        let na = if self.p.assets == 0 { 0 } else { self.s.count(0, self.p.assets, self.p.assets + 2) };
        let ids: Vec<String> = (0..na).map(|k| format!("{}{k}", self.s.pick(&["comp_", "é", "a b "]))).collect();
        let mut assets = vec![];
        for k in 0..na {
            // an asset may instance later ones only, so nesting is finite
            let allowed = if self.p.wild && self.s.pct(20) { &ids[..] } else { &ids[k + 1..] };
            let layers = if self.s.below(25) == 24 { vec![] } else { self.layer_set(allowed) };
            assets.push(Asset::Precomp { id: ids[k].clone(), layers });
        }
        if self.s.pct(self.p.image_assets) {
            let at = self.s.usize(0, assets.len());
            let (w, h) = self.s.pick(&[(Some(10.0), Some(20.0)), (Some(10.0), None), (None, Some(1.5))]);
            assets.insert(at, Asset::Image { id: "image_0".into(), w, h });
        }
        let mut layers = self.layer_set(&ids);
        if self.s.pct(self.p.big) {
            self.enlarge(&mut layers, &mut assets);
        }
        let assets = if assets.is_empty() && self.s.pct(60) { None } else { Some(assets) };
        let ip = self.time(-5.0, 10.0);
        Comp { w, h, fr: self.s.pick(&[60.0, 30.0, 24.0, 29.97, 1.0]), ip, op: milli(ip + self.time(1.0, 120.0)), layers, assets }
    }
}

pub fn ancestors(ls: &[Layer], k: usize) -> Vec<usize> {
    let mut out = vec![k];
    let mut up = ls[k].parent;
    while let Some(i) = up {
        let Some(j) = crate::refren::find(ls, i) else { break };
        if out.contains(&j) {
            break;
        }
        out.push(j);
        up = ls[j].parent;
    }
    out
}
fn matte_cycle(ls: &[Layer], k: usize) -> bool {
    let m = crate::refren::mattes(ls);
    let mut seen = vec![k];
    let mut cur = m[k];
    while let Some(j) = cur {
        if seen.contains(&j) {
            return true;
        }
        seen.push(j);
        cur = m[j];
    }
    false
}

pub fn comp(s: &mut Src, p: &Prof) -> Comp {
    Gen { s, p }.comp()
}

// ---- times ----

fn xf_times(x: &Xf, out: &mut Vec<f64>) {
    if let Some(a) = &x.a {
        a.times(out)
    }
    match &x.p {
        Pos::Vec(a) => a.times(out),
        Pos::Split(a, b) => {
            a.times(out);
            b.times(out)
        }
    }
    if let Some(a) = &x.s {
        a.times(out)
    }
    match &x.r {
        Some(Rot::Plain(a)) | Some(Rot::Split(a)) => a.times(out),
        None => {}
    }
    for a in [&x.sk, &x.sa, &x.o].into_iter().flatten() {
        a.times(out)
    }
}
fn path_times(p: &PathVal, out: &mut Vec<f64>) {
    if let PathVal::Keys(k) = p {
        out.extend(k.iter().map(|k| k.t))
    }
}
fn shape_times(s: &Shape, out: &mut Vec<f64>) {
    match s {
        Shape::Group { items, xf, .. } => {
            items.iter().for_each(|s| shape_times(s, out));
            if let Some(x) = xf {
                xf_times(x, out)
            }
        }
        Shape::Rect { p, s, r } => {
            p.times(out);
            s.times(out);
            r.times(out)
        }
        Shape::Ell { p, s } => {
            p.times(out);
            s.times(out)
        }
        Shape::Star(s) => {
            s.p.times(out);
            for a in [&s.or, &s.os, &s.r, &s.pt].into_iter().chain(&s.ir).chain(&s.is) {
                a.times(out)
            }
        }
        Shape::Path(p) => path_times(p, out),
        Shape::Fill { c, o } => {
            c.times(out);
            o.times(out)
        }
        Shape::Stroke { c, o, st } => {
            c.times(out);
            o.times(out);
            st.w.times(out)
        }
        Shape::GFill { g, o } => {
            grad_times(g, out);
            o.times(out)
        }
        Shape::GStroke { g, o, st } => {
            grad_times(g, out);
            o.times(out);
            st.w.times(out)
        }
        Shape::Trim { s, e, o } => {
            s.times(out);
            e.times(out);
            o.times(out)
        }
        Shape::Ignored(_) | Shape::Hidden(_) => {}
    }
}
fn grad_times(g: &Grad, out: &mut Vec<f64>) {
    g.s.times(out);
    g.e.times(out);
    g.stops.times(out)
}
pub fn layer_times(l: &Layer, out: &mut Vec<f64>) {
    xf_times(&l.xf, out);
    for m in l.masks.iter().flatten() {
        if let Some(p) = &m.path {
            path_times(p, out)
        }
        if let Some(o) = &m.o {
            o.times(out)
        }
    }
    if let Kind::Shape(s) = &l.kind {
        s.iter().for_each(|s| shape_times(s, out))
    }
}

/// Every time that matters, as a frame of the root timeline (through every instance).
pub fn all_times(c: &Comp) -> Vec<f64> {
    fn go(c: &Comp, ls: &[Layer], a: f64, b: f64, depth: usize, budget: &mut usize, out: &mut Vec<f64>) {
        // root time = a * inner + b
        let mut ts = vec![];
        for l in ls {
            ts.push(l.ip);
            ts.push(l.op);
            layer_times(l, &mut ts);
        }
        out.extend(ts.into_iter().filter(|t| t.abs() < 999.0).map(|t| a * t + b));
        for l in ls {
            if let Kind::Precomp { ref_id, .. } = &l.kind
                && depth < 24
                && *budget > 0
                && let Some(inner) = c.asset(ref_id)
            {
                *budget -= 1;
                go(c, inner, a * l.sr.unwrap_or(1.0), a * l.st.unwrap_or(0.0) + b, depth + 1, budget, out);
            }
        }
    }
    let mut out = vec![];
    go(c, &c.layers, 1.0, 0.0, 0, &mut 60, &mut out);
    out.retain(|t| t.abs() < 1e5);
    out.sort_by(f64::total_cmp);
    out.dedup();
    out
}

pub fn frame(s: &mut Src, times: &[f64], dyadic: bool) -> f64 {
    let r = |x: f64| if dyadic { (x * 8.0).round() / 8.0 } else { x };
    if times.is_empty() {
        return if dyadic { s.grid(-5.0, 60.0, 0.25) } else { s.num(-5.0, 60.0) };
    }
    let k = s.usize(0, times.len() - 1);
    match s.below(6) {
        0 => times[k],
        1 | 2 | 3 => {
            let b = if k + 1 < times.len() { times[k + 1] } else { times[k] + 2.0 };
            let fr = s.grid(0.05, 0.95, 0.05);
            let digits = if (b - times[k]).abs() < 0.6 { 1e6 } else { 1e3 };
            r(((times[k] + (b - times[k]) * fr) * digits).round() / digits)
        }
        4 => r(s.num(times[0] - 6.0, times[times.len() - 1] + 6.0)),
        _ => s.grid(-5.0, 60.0, 1.0),
    }
}

/// Could rounding put an instanced time on the other side of a jump?
pub fn ambiguous(c: &Comp, f: f64) -> bool {
    fn go(c: &Comp, ls: &[Layer], f: f64, fuzzy: bool, depth: usize, budget: &mut usize) -> bool {
        if fuzzy {
            let mut ts = vec![];
            for l in ls {
                ts.push(l.ip);
                ts.push(l.op);
                layer_times(l, &mut ts);
            }
            if ts.iter().any(|t| (t - f).abs() < 1e-7 * (1.0 + t.abs())) {
                return true;
            }
        }
        for l in ls {
            if let Kind::Precomp { ref_id, .. } = &l.kind
                && depth < 24
                && *budget > 0
                && let Some(inner) = c.asset(ref_id)
            {
                *budget -= 1;
                let sr = l.sr.unwrap_or(1.0);
                let exact = sr.abs().log2().fract() == 0.0;
                let g = (f - l.st.unwrap_or(0.0)) / sr;
                if go(c, inner, g, fuzzy || !exact, depth + 1, budget) {
                    return true;
                }
            }
        }
        false
    }
    go(c, &c.layers, f, false, 0, &mut 300)
}

/// A caller transform.
pub fn affine(s: &mut Src) -> Affine {
    match s.below(5) {
        0 => Affine::IDENTITY,
        1 => Affine::new([1.0, 0.0, 0.0, 1.0, s.num(-100.0, 100.0), s.num(-100.0, 100.0)]),
        2 => {
            let k = s.num(0.1, 4.0);
            Affine::new([k, 0.0, 0.0, s.num(0.1, 4.0), s.num(-100.0, 100.0), s.num(-100.0, 100.0)])
        }
        _ => {
            let m = |s: &mut Src| s.num(-3.0, 3.0);
            let (a, b, c, d) = (m(s), m(s), m(s), m(s));
            let (d, det) = (d, a * d - b * c);
            let d = if det.abs() < 0.05 { d + 3.5 } else { d };
            Affine::new([a, b, c, d, s.num(-300.0, 300.0), s.num(-300.0, 300.0)])
        }
    }
}
