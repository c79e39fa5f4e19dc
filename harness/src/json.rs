//! An annotated JSON tree (what a document says plus which parts are required / redundant), and its spelling as text.

use crate::src::Src;
use serde_json::{Map, Number, Value};

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    /// real-valued property
    Real(f64),
    /// integer-only property
    Int(i64),
    /// numeric enumeration code
    Code(i64),
    Bool(bool),
    /// 0 / 1 flag
    B01(bool),
    Str(String),
    /// string enumeration code
    SCode(String),
    Arr(Vec<J>),
    Obj(Vec<Field>),
    /// free-form value
    Any(Value),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Field {
    pub k: String,
    pub v: J,
    /// the schema requires it
    pub req: bool,
    /// metadata without influence on rendering
    pub redundant: bool,
}

#[derive(Default, Clone, Debug)]
pub struct Ob(pub Vec<Field>);
impl Ob {
    pub fn new() -> Self {
        Ob(vec![])
    }
    pub fn req(&mut self, k: &str, v: J) {
        self.0.push(Field { k: k.into(), v, req: true, redundant: false });
    }
    pub fn opt(&mut self, k: &str, v: J) {
        self.0.push(Field { k: k.into(), v, req: false, redundant: false });
    }
    pub fn meta(&mut self, k: &str, v: J) {
        self.0.push(Field { k: k.into(), v, req: false, redundant: true });
    }
    pub fn has(&self, k: &str) -> bool {
        self.0.iter().any(|f| f.k == k)
    }
    pub fn j(self) -> J {
        J::Obj(self.0)
    }
}

pub fn real_value(x: f64) -> Value {
    if x.fract() == 0.0 && x.abs() < 9e15 && !(x == 0.0 && x.is_sign_negative()) {
        Value::Number(Number::from(x as i64))
    } else {
        Value::Number(Number::from_f64(x).expect("finite"))
    }
}

impl J {
    pub fn value(&self) -> Value {
        match self {
            J::Real(x) => real_value(*x),
            J::Int(i) | J::Code(i) => Value::Number((*i).into()),
            J::Bool(b) => Value::Bool(*b),
            J::B01(b) => Value::Number((*b as i64).into()),
            J::Str(s) | J::SCode(s) => Value::String(s.clone()),
            J::Arr(a) => Value::Array(a.iter().map(J::value).collect()),
            J::Obj(f) => {
                let mut m = Map::new();
                for f in f {
                    m.insert(f.k.clone(), f.v.value());
                }
                Value::Object(m)
            }
            J::Any(v) => v.clone(),
        }
    }
    /// Compact text in tree order, numbers in their shortest spelling.
    pub fn text(&self) -> String {
        let mut s = String::new();
        self.write(&mut s, &mut |_, _| 0, false);
        s
    }
    /// Text with random spellings: whitespace and integer/decimal/exponent forms of real-valued numbers.
    pub fn text_styled(&self, src: &mut Src) -> String {
        let mut s = String::new();
        let ws = src.pct(50);
        self.write(&mut s, &mut |n, _| src.below(n), ws);
        s
    }
    fn write(&self, out: &mut String, ch: &mut dyn FnMut(u32, &str) -> u32, ws: bool) {
        fn sp(out: &mut String, ch: &mut dyn FnMut(u32, &str) -> u32, ws: bool) {
            if ws {
                match ch(8, "ws") {
                    1 => out.push(' '),
                    2 => out.push('\n'),
                    3 => out.push_str("\t "),
                    4 => out.push_str("\r\n"),
                    _ => {}
                }
            }
        }
        match self {
            J::Real(x) => {
                let base = real_value(*x).to_string();
                let form = if x.fract() == 0.0 && x.abs() < 1e9 { ch(4, "num") } else { ch(2, "num") };
                if base.contains(['e', 'E']) {
                    out.push_str(&base);
                    return;
                }
                match form {
                    0 => out.push_str(&base),
                    1 => {
                        if base.contains('.') {
                            out.push_str(&base);
                            out.push('0');
                        } else {
                            out.push_str(&base);
                            out.push_str(".0");
                        }
                    }
                    2 => {
                        out.push_str(&base);
                        out.push_str("e0");
                    }
                    _ => {
                        out.push_str(&base);
                        out.push_str(if base.contains('.') { "00" } else { ".00" });
                    }
                }
            }
            J::Arr(a) => {
                out.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    sp(out, ch, ws);
                    x.write(out, ch, ws);
                }
                sp(out, ch, ws);
                out.push(']');
            }
            J::Obj(fs) => {
                out.push('{');
                for (i, f) in fs.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    sp(out, ch, ws);
                    out.push_str(&Value::String(f.k.clone()).to_string());
                    sp(out, ch, ws);
                    out.push(':');
                    sp(out, ch, ws);
                    f.v.write(out, ch, ws);
                }
                sp(out, ch, ws);
                out.push('}');
            }
            other => out.push_str(&other.value().to_string()),
        }
    }

    /// Visits every node with its path.
    pub fn walk<'a>(&'a self, path: &mut Vec<Step>, f: &mut dyn FnMut(&[Step], &'a J)) {
        f(path, self);
        match self {
            J::Arr(a) => {
                for (i, x) in a.iter().enumerate() {
                    path.push(Step::Ix(i));
                    x.walk(path, f);
                    path.pop();
                }
            }
            J::Obj(fs) => {
                for (i, fl) in fs.iter().enumerate() {
                    path.push(Step::Field(i));
                    fl.v.walk(path, f);
                    path.pop();
                }
            }
            _ => {}
        }
    }
    pub fn at_mut(&mut self, path: &[Step]) -> &mut J {
        let mut j = self;
        for s in path {
            j = match (s, j) {
                (Step::Ix(i), J::Arr(a)) => &mut a[*i],
                (Step::Field(i), J::Obj(f)) => &mut f[*i].v,
                _ => panic!("bad path"),
            };
        }
        j
    }
    pub fn at(&self, path: &[Step]) -> &J {
        let mut j = self;
        for s in path {
            j = match (s, j) {
                (Step::Ix(i), J::Arr(a)) => &a[*i],
                (Step::Field(i), J::Obj(f)) => &f[*i].v,
                _ => panic!("bad path"),
            };
        }
        j
    }
    pub fn map_objs(&mut self, f: &mut dyn FnMut(&mut Vec<Field>)) {
        match self {
            J::Arr(a) => a.iter_mut().for_each(|x| x.map_objs(f)),
            J::Obj(fs) => {
                f(fs);
                fs.iter_mut().for_each(|x| x.v.map_objs(f));
            }
            _ => {}
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Step {
    Ix(usize),
    Field(usize),
}

pub fn path_text(root: &J, path: &[Step]) -> String {
    let mut j = root;
    let mut s = String::new();
    for st in path {
        match (st, j) {
            (Step::Ix(i), J::Arr(a)) => {
                s += &format!("[{i}]");
                j = &a[*i];
            }
            (Step::Field(i), J::Obj(f)) => {
                s += &format!(".{}", f[*i].k);
                j = &f[*i].v;
            }
            _ => {}
        }
    }
    s
}
