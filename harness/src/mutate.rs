//! Edits of annotated JSON trees.

use crate::json::*;
use crate::src::Src;
use serde_json::{Value, json};

fn paths(j: &J, want: &dyn Fn(&J) -> bool) -> Vec<Vec<Step>> {
    let mut out = vec![];
    j.walk(&mut vec![], &mut |p, n| {
        if want(n) {
            out.push(p.to_vec());
        }
    });
    out
}
/// The name of the field that a node is, or is in a list of.
fn key<'a>(j: &'a J, path: &[Step]) -> &'a str {
    let mut name = "";
    let mut j = j;
    for step in path {
        j = match (step, j) {
            (Step::Ix(i), J::Arr(a)) => &a[*i],
            (Step::Field(i), J::Obj(f)) => {
                name = &f[*i].k;
                &f[*i].v
            }
            _ => break,
        };
    }
    name
}
/// One of the wanted nodes. Half of the time the name of its field is chosen first, so that fields that occur
/// once are not crowded out by coordinates.
fn choose(j: &J, src: &mut Src, want: &dyn Fn(&J) -> bool) -> Option<Vec<Step>> {
    let mut p = paths(j, want);
    if p.is_empty() {
        return None;
    }
    if src.pct(50) {
        let mut names: Vec<&str> = p.iter().map(|p| key(j, p)).collect();
        names.sort();
        names.dedup();
        let name = names[src.usize(0, names.len() - 1)];
        p.retain(|p| key(j, p) == name);
    }
    let k = src.usize(0, p.len() - 1);
    Some(p[k].clone())
}

/// Gives one number an enormous value.
pub fn extreme(j: &mut J, src: &mut Src) {
    let Some(p) = choose(j, src, &|n| matches!(n, J::Real(_))) else { return };
    let v = src.pick(&[1e12, -1e12, 1e40, -1e40, 1e160, 1e300, -1e300, f64::MAX, f64::MIN]);
    *j.at_mut(&p) = J::Real(v);
}

/// Changes one number, or the length of one list of numbers; magnitudes stay below a million.
pub fn numeric(j: &mut J, src: &mut Src) {
    if src.pct(50) {
        let Some(p) = choose(j, src, &|n| matches!(n, J::Real(_))) else { return };
        let v = src.pick(&[0.0, 1.0, -1.0, 90.0, 100.0, 360.0, 0.5, -0.5, 99999.0, -99999.0, 1e-9, 1e-300, -0.0, 1e5, 50.0]);
        *j.at_mut(&p) = J::Real(v);
    } else {
        let Some(p) = choose(j, src, &|n| matches!(n, J::Arr(a) if !a.is_empty() && a.iter().all(|x| matches!(x, J::Real(_))))) else { return };
        let J::Arr(a) = j.at_mut(&p) else { return };
        match src.below(3) {
            0 => {
                let n = src.usize(0, a.len());
                a.truncate(n);
            }
            1 => a.push(J::Real(0.25)),
            _ => {
                let x = a.clone();
                a.extend(x);
            }
        }
    }
}

fn odd_value(src: &mut Src) -> Value {
    match src.below(14) {
        0 => Value::Null,
        1 => json!(true),
        2 => json!(0),
        3 => json!(-1),
        4 => json!(1.5),
        5 => json!(""),
        6 => json!("x"),
        7 => json!([]),
        8 => json!({}),
        9 => json!([0, 1]),
        10 => json!(1e300),
        11 => json!(u64::MAX),
        12 => json!({"k": 1}),
        _ => json!([{"t": 0, "s": [1]}]),
    }
}

/// One arbitrary edit: the document may or may not stay valid.
pub fn any(j: &mut J, src: &mut Src) {
    match src.below(6) {
        0 => numeric(j, src),
        1 => {
            // remove a field
            let Some(p) = choose(j, src, &|n| matches!(n, J::Obj(f) if !f.is_empty())) else { return };
            let J::Obj(f) = j.at_mut(&p) else { return };
            let k = src.usize(0, f.len() - 1);
            f.remove(k);
        }
        2 => {
            // remove or repeat an element
            let Some(p) = choose(j, src, &|n| matches!(n, J::Arr(a) if !a.is_empty())) else { return };
            let J::Arr(a) = j.at_mut(&p) else { return };
            let k = src.usize(0, a.len() - 1);
            if src.pct(50) {
                a.remove(k);
            } else {
                let x = a[k].clone();
                a.insert(k, x);
            }
        }
        3 | 4 => {
            let Some(p) = choose(j, src, &|n| !matches!(n, J::Any(_))) else { return };
            if p.is_empty() {
                return;
            }
            let v = odd_value(src);
            *j.at_mut(&p) = J::Any(v);
        }
        _ => {
            // put one part of the document in the place of another
            let Some(p) = choose(j, src, &|_| true) else { return };
            let Some(q) = choose(j, src, &|_| true) else { return };
            if q.is_empty() || (p.len() < q.len() && q.starts_with(&p)) {
                return;
            }
            let v = j.at(&p).value();
            if v.to_string().len() > 20_000 {
                return;
            }
            *j.at_mut(&q) = J::Any(v);
        }
    }
}

/// Leaves out redundant fields.
pub fn drop_redundant(j: &mut J, src: &mut Src) {
    let rate = src.pick(&[30, 100]);
    j.map_objs(&mut |f| f.retain(|x| !(x.redundant && src.pct(rate))));
}

/// Reorders the keys of every object and adds unknown ones.
pub fn respell(j: &mut J, src: &mut Src, unknown: u32) {
    let shuffle = src.pct(80);
    // at most about this many surplus keys
    let mut budget = 60;
    j.map_objs(&mut |f| {
        if unknown > 0 && budget > 0 && src.pct(unknown) {
            budget -= 1;
            let k = src.pick(&["zz", "qqq", "x_unknown", "ef_", "Ty", "K", "$schema", "__proto__", "comment", "é"]);
            if !f.iter().any(|x| x.k == k) {
                let v = match src.below(6) {
                    0 => Value::Null,
                    1 => json!(1),
                    2 => json!("tr"),
                    3 => json!({"ty": "fl", "k": [1, 2, {"t": 3}]}),
                    4 => json!([[], {"a": 1.5}]),
                    _ => json!(true),
                };
                let at = src.usize(0, f.len());
                f.insert(at, Field { k: k.into(), v: J::Any(v), req: false, redundant: true });
            }
        }
        if shuffle && f.len() > 1 {
            match src.below(3) {
                0 => f.reverse(),
                1 => {
                    let n = f.len();
                    let k = src.usize(0, n - 1);
                    f.rotate_left(k)
                }
                _ => {
                    for k in (1..f.len()).rev() {
                        let i = src.usize(0, k);
                        f.swap(i, k);
                    }
                }
            }
        }
    });
}
