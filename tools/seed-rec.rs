// Recording sink and document helpers shared by the demonstrations.
#![allow(dead_code)]
use kurbo::{Affine, PathEl, Point, Shape};
use serde_json::{Value, json};
use velato::{Composition, RenderSink, Renderer, model::fixed};

#[derive(Clone, Debug)]
pub enum Ev {
    Push { blend: peniko::BlendMode, alpha: f32, t: Affine, path: Vec<PathEl> },
    Clip { t: Affine, path: Vec<PathEl> },
    Pop,
    Draw { stroke: Option<fixed::Stroke>, t: Affine, brush: fixed::Brush, path: Vec<PathEl> },
    Begin(String, usize),
    End,
}

#[derive(Default)]
pub struct Rec(pub Vec<Ev>);

impl RenderSink for Rec {
    fn push_layer(&mut self, blend: impl Into<peniko::BlendMode>, alpha: f32, t: Affine, shape: &impl Shape) {
        let path = shape.path_elements(0.01).collect();
        self.0.push(Ev::Push { blend: blend.into(), alpha, t, path });
    }
    fn push_clip_layer(&mut self, t: Affine, shape: &impl Shape) {
        self.0.push(Ev::Clip { t, path: shape.path_elements(0.01).collect() });
    }
    fn pop_layer(&mut self) {
        self.0.push(Ev::Pop);
    }
    fn draw(&mut self, stroke: Option<&fixed::Stroke>, t: Affine, brush: &fixed::Brush, shape: &impl Shape) {
        let path = shape.path_elements(0.01).collect();
        self.0.push(Ev::Draw { stroke: stroke.cloned(), t, brush: brush.clone(), path });
    }
    fn begin_layer_group(&mut self, name: &str, index: usize) {
        self.0.push(Ev::Begin(name.to_owned(), index));
    }
    fn end_layer_group(&mut self) {
        self.0.push(Ev::End);
    }
}

pub fn import(doc: &Value) -> Composition {
    Composition::from_slice(doc.to_string()).expect("the document is valid")
}

pub fn render_with(doc: &Value, frame: f64, t: Affine, alpha: f64) -> Vec<Ev> {
    let mut rec = Rec::default();
    Renderer::new().append(&import(doc), frame, t, alpha, &mut rec);
    rec.0
}

pub fn render(doc: &Value, frame: f64) -> Vec<Ev> {
    render_with(doc, frame, Affine::IDENTITY, 1.0)
}

pub struct Draw {
    pub stroke: Option<fixed::Stroke>,
    pub t: Affine,
    pub brush: fixed::Brush,
    pub path: Vec<PathEl>,
}

pub fn draws(evs: &[Ev]) -> Vec<Draw> {
    evs.iter()
        .filter_map(|e| match e {
            Ev::Draw { stroke, t, brush, path } => Some(Draw {
                stroke: stroke.clone(),
                t: *t,
                brush: brush.clone(),
                path: path.clone(),
            }),
            _ => None,
        })
        .collect()
}

impl Draw {
    pub fn solid(&self) -> [f32; 4] {
        match &self.brush {
            peniko::Brush::Solid(c) => c.components,
            b => panic!("not a solid brush: {b:?}"),
        }
    }
    pub fn gradient(&self) -> peniko::Gradient {
        match &self.brush {
            peniko::Brush::Gradient(g) => g.clone(),
            b => panic!("not a gradient: {b:?}"),
        }
    }
    pub fn bez(&self) -> kurbo::BezPath {
        kurbo::BezPath::from_vec(self.path.clone())
    }
    pub fn bbox(&self) -> kurbo::Rect {
        (self.t * self.bez()).bounding_box()
    }
    /// Where a point of the path's coordinate system ends up.
    pub fn at(&self, x: f64, y: f64) -> Point {
        self.t * Point::new(x, y)
    }
}

pub fn near(a: f64, b: f64) -> bool {
    (a - b).abs() < 1e-3
}

pub fn val(v: impl Into<Value>) -> Value {
    json!({ "k": v.into() })
}

pub fn anim(keyframes: Value) -> Value {
    json!({ "a": 1, "k": keyframes })
}

pub fn ks() -> Value {
    json!({ "p": { "a": 0, "k": [0, 0] } })
}

pub fn rect(x: f64, y: f64, w: f64, h: f64) -> Value {
    json!({ "ty": "rc", "p": { "a": 0, "k": [x, y] }, "s": { "k": [w, h] }, "r": { "k": 0 } })
}

pub fn fill(r: f64, g: f64, b: f64) -> Value {
    json!({ "ty": "fl", "c": { "k": [r, g, b] }, "o": { "k": 100 }, "r": 1 })
}

pub fn path(v: Value, i: Value, o: Value, closed: bool) -> Value {
    json!({ "ty": "sh", "ks": { "a": 0, "k": { "c": closed, "v": v, "i": i, "o": o } } })
}

pub fn shapes_layer(ind: usize, shapes: Value) -> Value {
    json!({ "ty": 4, "nm": format!("L{ind}"), "ind": ind, "ip": 0, "op": 100, "st": 0, "ks": ks(), "shapes": shapes })
}

/// Overrides or adds members of an object.
pub fn with(mut v: Value, members: Value) -> Value {
    for (k, m) in members.as_object().unwrap() {
        v[k] = m.clone();
    }
    v
}

pub fn doc(layers: Value) -> Value {
    json!({ "v": "5.5.2", "fr": 30, "ip": 0, "op": 100, "w": 200, "h": 100, "layers": layers })
}
