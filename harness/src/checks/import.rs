//! Properties of importing and of the schema: no crash, round trip, rejection, metadata.

use super::common::*;
use crate::mutate;
use serde_json::Value;
use std::str::FromStr;
use velato::schema::Animation;

fn wild_comp(src: &mut Src) -> Comp {
    let mut p = if src.pct(60) { Prof::wild() } else { Prof::all() };
    p.layers = (0, 2, 5);
    p.items = (0, 2, 5);
    p.anim = src.pick(&[10, 40, 80]);
    p.split = src.pick(&[15, 60]);
    p.hidden = src.pick(&[8, 30]);
    p.image_assets = 30;
    p.matte = src.pick(&[12, 40]);
    p.wide = src.pct(20);
    r#gen::comp(src, &p)
}

// ---- P01 ----

const TOKENS: &[&str] = &[
    "1e999", "-1e999", "1e-999", "18446744073709551616", "-9223372036854775809", "4294967296", "-1", "0", "-0", "null", "true", "false", "\"\"",
    "[]", "{}", "[[]]", "{\"k\":[]}", "{\"k\":0}", "[{\"t\":0,\"s\":[]}]", "[{\"t\":0}]", "{\"a\":1,\"k\":[{\"t\":0,\"s\":[0]},{\"t\":0}]}",
    "\"\\u0000\"", "\"\\ud800\"", "1e308", "5e-324", "0.1", "1E+2", "99999999999", "2.5", "\"s\"", "[0,0]", "[1]", "{\"x\":[],\"y\":[]}",
    "{\"x\":0.5,\"y\":0.5}", "{\"c\":true,\"v\":[],\"i\":[],\"o\":[]}", "{\"v\":[[]],\"i\":[[]],\"o\":[[]]}", "{\"v\":[[0]],\"i\":[[0,0]],\"o\":[]}",
    "{\"p\":3,\"k\":{\"k\":[0,1]}}", "{\"s\":true,\"x\":{\"k\":0},\"y\":{\"k\":0}}", "{\"ty\":\"tr\"}", "{\"ty\":4}", "{\"id\":\"x\"}",
];

fn text_edit(t: &mut Vec<u8>, src: &mut Src) {
    if t.is_empty() {
        return;
    }
    let at = |s: &mut Src, n: usize| s.usize(0, n - 1);
    match src.below(11) {
        9 | 10 => {
            // an extreme number for one property, every property name alike
            let mut by: std::collections::BTreeMap<Vec<u8>, Vec<(usize, usize)>> = Default::default();
            let mut k = 0;
            while k + 2 < t.len() {
                if t[k] == b'"' && t[k + 1] == b':' && (t[k + 2].is_ascii_digit() || t[k + 2] == b'-') {
                    let a = t[..k].iter().rposition(|c| *c == b'"').map_or(0, |a| a + 1);
                    let n = t[k + 2..].iter().take_while(|c| matches!(c, b'0'..=b'9' | b'-' | b'+' | b'.' | b'e' | b'E')).count();
                    by.entry(t[a..k].to_vec()).or_default().push((k + 2, k + 2 + n));
                }
                k += 1;
            }
            if by.is_empty() {
                return;
            }
            let names: Vec<_> = by.keys().cloned().collect();
            let at = &by[&src.pick(&names)];
            let (a, b) = at[src.usize(0, at.len() - 1)];
            let x = src.pick(&[
                "0", "-1", "1", "2147483647", "2147483648", "4294967295", "4294967296", "9007199254740993", "1000000000000", "9223372036854775807",
                "9223372036854775808", "18446744073709551615", "-9223372036854775808", "0.5", "1.5", "1e15", "1e19", "1e300", "-1e300", "1e-300", "127", "128", "255", "256", "65536",
            ]);
            t.splice(a..b, x.bytes());
        }
        0 => {
            let k = at(src, t.len());
            t[k] = src.below(256) as u8;
        }
        1 => {
            let k = at(src, t.len());
            t.remove(k);
        }
        2 => {
            let k = at(src, t.len());
            let b = src.pick(b"{}[]\",:0-9.eE\\ntf \x00\xff");
            t.insert(k, b);
        }
        3 => {
            let n = at(src, t.len());
            t.truncate(n);
        }
        4 => {
            // repeat or drop a stretch
            let (a, n) = (at(src, t.len()), src.usize(1, 40));
            let b = (a + n).min(t.len());
            if src.pct(50) {
                t.drain(a..b);
            } else {
                let x = t[a..b].to_vec();
                t.splice(a..a, x);
            }
        }
        _ => {
            // replace one value by another
            let starts: Vec<usize> = (0..t.len()).filter(|k| *k > 0 && matches!(t[*k - 1], b':' | b',' | b'[')).collect();
            if starts.is_empty() {
                return;
            }
            let a = starts[src.usize(0, starts.len() - 1)];
            let mut b = a;
            let (mut depth, mut quote) = (0i32, false);
            while b < t.len() {
                let c = t[b];
                if quote {
                    if c == b'\\' {
                        b += 1;
                    } else if c == b'"' {
                        quote = false;
                    }
                } else {
                    match c {
                        b'"' => quote = true,
                        b'{' | b'[' => depth += 1,
                        b'}' | b']' if depth == 0 => break,
                        b'}' | b']' => depth -= 1,
                        b',' if depth == 0 => break,
                        _ => {}
                    }
                }
                b += 1;
            }
            let b = b.min(t.len());
            let tok = src.pick(TOKENS);
            t.splice(a..b, tok.bytes());
        }
    }
}

fn dup_keys(text: &str) -> bool {
    struct D(bool);
    impl<'de> serde::de::DeserializeSeed<'de> for &mut D {
        type Value = ();
        fn deserialize<T: serde::Deserializer<'de>>(self, d: T) -> Result<(), T::Error> {
            d.deserialize_any(self)
        }
    }
    impl<'de> serde::de::Visitor<'de> for &mut D {
        type Value = ();
        fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            f.write_str("json")
        }
        fn visit_bool<E>(self, _: bool) -> Result<(), E> {
            Ok(())
        }
        fn visit_i64<E>(self, _: i64) -> Result<(), E> {
            Ok(())
        }
        fn visit_u64<E>(self, _: u64) -> Result<(), E> {
            Ok(())
        }
        fn visit_f64<E>(self, _: f64) -> Result<(), E> {
            Ok(())
        }
        fn visit_str<E>(self, _: &str) -> Result<(), E> {
            Ok(())
        }
        fn visit_unit<E>(self) -> Result<(), E> {
            Ok(())
        }
        fn visit_seq<A: serde::de::SeqAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
            while a.next_element_seed(&mut *self)?.is_some() {}
            Ok(())
        }
        fn visit_map<A: serde::de::MapAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
            let mut seen = std::collections::HashSet::new();
            while let Some(k) = a.next_key::<String>()? {
                if !seen.insert(k) {
                    self.0 = true;
                }
                a.next_value_seed(&mut *self)?;
            }
            Ok(())
        }
    }
    use serde::de::DeserializeSeed;
    let mut d = D(false);
    let mut de = serde_json::Deserializer::from_str(text);
    let _ = (&mut d).deserialize(&mut de);
    d.0
}

pub fn p01_bytes(bytes: &[u8], frames: &[f64], ctx: &mut Ctx) -> R {
    let a = sut(|| Composition::from_slice(bytes));
    ctx.tag(if a.is_ok() { "accepted" } else { "rejected" });
    if let Err(e) = &a {
        let _ = sut(|| (e.to_string(), format!("{e:?}")));
    }
    let Ok(text) = std::str::from_utf8(bytes) else {
        return Ok(());
    };
    let b = sut(|| Composition::from_str(text));
    let same = |x: &Result<Composition, velato::Error>, y: &Result<Composition, velato::Error>, what: &str| -> R {
        match (x, y) {
            (Ok(x), Ok(y)) => {
                if x.frames.start.to_bits() != y.frames.start.to_bits()
                    || x.frames.end.to_bits() != y.frames.end.to_bits()
                    || x.width != y.width
                    || x.height != y.height
                    || x.layers.len() != y.layers.len()
                    || x.assets.len() != y.assets.len()
                {
                    return fail(format!("{what} report different compositions"));
                }
                Ok(())
            }
            (Err(_), Err(_)) => Ok(()),
            (Ok(_), Err(e)) => fail(format!("{what} disagree: the second rejects with {e}")),
            (Err(e), Ok(_)) => fail(format!("{what} disagree: the first rejects with {e}")),
        }
    };
    same(&a, &b, "bytes and string")?;
    let mut c = None;
    if let Ok(v) = serde_json::from_str::<Value>(text)
        && !dup_keys(text)
    {
        ctx.tag("value");
        let r = sut(|| Composition::from_json(v));
        same(&a, &r, "bytes and JSON value")?;
        c = Some(r);
    }
    if let (Ok(a), Ok(b)) = (&a, &b) {
        for f in frames {
            // rendering is another property's concern; here only agreement counts
            let Ok(x) = quiet(|| render(a, *f, Affine::IDENTITY, 1.0)) else { continue };
            if let Err(e) = same_ops(&x, &rend(b, *f, Affine::IDENTITY, 1.0)) {
                return fail(format!("bytes and string render differently at frame {f}: {e}"));
            }
            if let Some(Ok(c)) = &c
                && let Err(e) = same_ops(&x, &rend(c, *f, Affine::IDENTITY, 1.0))
            {
                return fail(format!("bytes and JSON value render differently at frame {f}: {e}"));
            }
        }
    }
    Ok(())
}
fn quiet<T>(f: impl FnOnce() -> T) -> std::thread::Result<T> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f))
}

pub const P01: Check = Check {
    id: "P01",
    quick: 60_000,
    thorough: 2_500_000,
    rule: "a case counts when the input is accepted, or is a valid document with at least one edit; distinct by input",
    assumptions: &[
        "inputs are generated documents with every optional property, edits of their trees and texts, and random bytes; JSON values nest at most as deep as the text parser allows (128)",
        "'runs away' is judged by a limit of 60 s and 14 GB per process",
    ],
    run: |src, ctx| {
        let mode = src.weighted(&[25, 35, 30, 5, 5]);
        let mut frames = vec![];
        let bytes: Vec<u8> = match mode {
            0..=2 => {
                let c = wild_comp(src);
                let small = super::metamorph::expansion(&c, 300).is_some();
                let t = r#gen::all_times(&c);
                if small && mode < 2 {
                    for _ in 0..2 {
                        frames.push(r#gen::frame(src, &t, false));
                    }
                }
                let rate = src.pick(&[5, 30]);
                let mut j = enc::encode(&c, src, Extras::Full, rate);
                if mode == 1 {
                    for _ in 0..src.usize(1, 5) {
                        mutate::any(&mut j, src);
                    }
                }
                let mut t = if src.pct(15) { j.text_styled(src) } else { j.text() }.into_bytes();
                if mode == 2 {
                    for _ in 0..src.usize(1, 6) {
                        text_edit(&mut t, src);
                    }
                }
                t
            }
            3 => {
                let n = src.usize(0, 60);
                if src.pct(50) {
                    (0..n).map(|_| src.below(256) as u8).collect()
                } else {
                    (0..n).map(|_| src.pick(b"{}[]\",:01.-e\\uktls ")).collect()
                }
            }
            _ => {
                // nesting around and beyond the parser's limit
                let n = src.pick(&[10usize, 30, 60, 100, 120, 126, 127, 128, 129, 200, 5000, 200_000]);
                let (open, close) = src.pick(&[("[", "]"), ("{\"it\":[", "]}"), ("{\"k\":", "}"), ("{\"ty\":\"gr\",\"it\":[", "]}")]);
                let inner = open.repeat(n) + "0" + &close.repeat(if src.pct(80) { n } else { n / 2 });
                match src.below(4) {
                    0 => inner,
                    1 => format!("{{\"fr\":1,\"ip\":0,\"op\":1,\"w\":1,\"h\":1,\"layers\":{inner}}}"),
                    2 => format!("{{\"fr\":1,\"ip\":0,\"op\":1,\"w\":1,\"h\":1,\"layers\":[],\"metadata\":{inner}}}"),
                    _ => format!("{{\"fr\":1,\"ip\":0,\"op\":1,\"w\":1,\"h\":1,\"layers\":[{{\"ty\":4,\"ip\":0,\"op\":1,\"ks\":{{\"p\":{{\"k\":[0,0]}}}},\"shapes\":[{inner}]}}]}}"),
                }
                .into_bytes()
            }
        };
        ctx.tag(["document", "edited-tree", "edited-text", "bytes", "nesting"][mode]);
        ctx.input(String::from_utf8_lossy(&bytes).chars().take(20_000).collect::<String>());
        let r = p01_bytes(&bytes, &frames, ctx);
        ctx.nontrivial = matches!(mode, 1 | 2) || ctx.tags.contains(&"accepted");
        r
    },
};

// ---- P19 ----

fn as_num(v: &Value) -> Option<f64> {
    v.as_f64()
}
/// Everything `a` states is in `b`; what `b` adds is null or a false flag.
fn covers(a: &Value, b: &Value, path: &mut String) -> Result<(), String> {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => {
            for (k, v) in x {
                let n = path.len();
                *path += &format!(".{k}");
                match y.get(k) {
                    None => return Err(format!("{path} = {} is lost", short(v))),
                    Some(w) => covers(v, w, path)?,
                }
                path.truncate(n);
            }
            for (k, w) in y {
                if !x.contains_key(k) && !w.is_null() && *w != Value::Bool(false) && as_num(w) != Some(0.0) {
                    return Err(format!("{path}.{k} = {} is made up", short(w)));
                }
            }
            Ok(())
        }
        (Value::Array(x), Value::Array(y)) => {
            if x.len() != y.len() {
                return Err(format!("{path} has {} entries instead of {}", y.len(), x.len()));
            }
            for (k, (v, w)) in x.iter().zip(y).enumerate() {
                let n = path.len();
                *path += &format!("[{k}]");
                covers(v, w, path)?;
                path.truncate(n);
            }
            Ok(())
        }
        (Value::Number(_), Value::Number(_)) => {
            if as_num(a) == as_num(b) { Ok(()) } else { Err(format!("{path} is {b} instead of {a}")) }
        }
        _ => {
            if a == b { Ok(()) } else { Err(format!("{path} is {} instead of {}", short(b), short(a))) }
        }
    }
}
fn short(v: &Value) -> String {
    v.to_string().chars().take(120).collect()
}

/// One type of the format model: what it reads it writes, and reads again.
fn part<T: serde::de::DeserializeOwned + serde::Serialize + PartialEq>(v: &Value) -> R {
    let a: T = match sut(|| serde_json::from_value(v.clone())) {
        Ok(a) => a,
        Err(e) => return fail(format!("{} is rejected: {e}", short(v))),
    };
    let out = match sut(|| serde_json::to_value(&a)) {
        Ok(o) => o,
        Err(e) => return fail(format!("{} cannot be serialised: {e}", short(v))),
    };
    if let Err(m) = covers(v, &out, &mut String::new()) {
        return fail(format!("after parsing and serialising {}, {m}", short(v)));
    }
    match sut(|| serde_json::from_value::<T>(out.clone())) {
        Ok(b) if a == b => Ok(()),
        Ok(_) => fail(format!("{} is another value when parsed again", short(&out))),
        Err(e) => fail(format!("{} is rejected when parsed again: {e}", short(&out))),
    }
}

/// Parts of the format model that no document leads to.
fn loose_part(src: &mut Src, ctx: &mut Ctx) -> R {
    use velato::schema::{constants as c, styles as s};
    let mut p = Prof::all();
    p.anim = src.pick(&[10, 50]);
    let (color, grad, nums) = {
        let mut g = r#gen::Gen { s: src, p: &p };
        (g.color(), g.grad(), (0..8).map(|_| g.a_num(-100.0, 100.0)).collect::<Vec<_>>())
    };
    let which = src.usize(0, 3);
    let rate = src.pick(&[10, 40, 90]);
    let v = enc::Enc { src, ex: Extras::Full, rate }.layer_style(which, &color, &grad, &nums).value();
    ctx.tag("loose part");
    match which {
        0 => part::<s::color_overlay_style::ColorOverlayStyle>(&v)?,
        1 => part::<s::gradient_overlay_style::GradientOverlayStyle>(&v)?,
        2 => part::<s::outer_glow_style::OuterGlowStyle>(&v)?,
        _ => part::<s::satin_style::SatinStyle>(&v)?,
    }
    type F = fn(&Value) -> R;
    let codes: [(F, i64, i64); 7] = [
        (part::<c::text_based::TextedBased>, 1, 4),
        (part::<c::text_caps::TextCaps>, 0, 2),
        (part::<c::text_grouping::TextGrouping>, 1, 4),
        (part::<c::text_justify::TextJustify>, 0, 6),
        (part::<c::text_range_units::TextRangeUnits>, 1, 2),
        (part::<c::text_shape::TextShape>, 1, 6),
        (part::<c::font_path_origin::FontPathOrigin>, 0, 3),
    ];
    let (f, lo, hi) = codes[src.usize(0, 6)];
    f(&Value::from(src.int(lo, hi)))
}

pub const P19: Check = Check {
    id: "P19",
    quick: 16_000,
    thorough: 600_000,
    rule: "a case counts when the document has at least one layer; distinct by document text",
    assumptions: &["the recognised properties are those the harness's encoder writes: it states every field of the schema types with positive probability"],
    run: |src, ctx| {
        let mut p = Prof::all();
        p.layers = (0, 2, 5);
        p.anim = src.pick(&[10, 50]);
        p.split = src.pick(&[15, 60]);
        p.bm = 40;
        p.matte = 25;
        p.hidden = 25;
        p.mask = 35;
        p.image_assets = 40;
        p.shapes[10] = 12;
        let comp = r#gen::comp(src, &p);
        let rate = src.pick(&[10, 40, 90]);
        let j = enc::encode(&comp, src, Extras::Full, rate);
        let v = j.value();
        let text = v.to_string();
        ctx.input(text.clone());
        ctx.nontrivial = !comp.layers.is_empty();
        let a1 = match sut(|| Animation::from_str(&text)) {
            Ok(a) => a,
            Err(e) => return fail(format!("a valid document is rejected: {e}")),
        };
        if src.pct(8) {
            loose_part(src, ctx)?;
        }
        let out = match sut(|| serde_json::to_value(&a1)) {
            Ok(v) => v,
            Err(e) => return fail(format!("a parsed document cannot be serialised: {e}")),
        };
        if let Err(m) = covers(&v, &out, &mut String::new()) {
            return fail(format!("after parsing and serialising, {m}"));
        }
        let shown = sut(|| a1.to_string());
        if serde_json::from_str::<Value>(&shown).ok().as_ref() != Some(&out) {
            return fail("the displayed document differs from the serialised one");
        }
        let a2 = match sut(|| Animation::from_json(out.clone())) {
            Ok(a) => a,
            Err(e) => return fail(format!("the serialised document is rejected: {e}; it reads {}", short(&out))),
        };
        if a1 != a2 {
            return fail("parsing the serialised document gives another document");
        }
        let a3 = match sut(|| Animation::from_slice(shown.as_bytes())) {
            Ok(a) => a,
            Err(e) => return fail(format!("the displayed document is rejected: {e}")),
        };
        if a1 != a3 {
            return fail("parsing the displayed document gives another document");
        }
        if src.pct(30) {
            let (c1, c2) = (import(&text)?, import(&shown)?);
            let t = r#gen::all_times(&comp);
            for _ in 0..2 {
                let f = r#gen::frame(src, &t, false);
                if let Err(e) = same_ops(&rend(&c1, f, Affine::IDENTITY, 1.0), &rend(&c2, f, Affine::IDENTITY, 1.0)) {
                    return fail(format!("at frame {f} the serialised document renders differently: {e}"));
                }
            }
        }
        Ok(())
    },
};

// ---- P20 ----

/// The id of the asset a path leads into, unless it leads to the id itself.
fn asset_of(root: &J, path: &[Step]) -> Option<String> {
    let J::Obj(f) = root else { return None };
    let (Step::Field(a), Step::Ix(i)) = (path.first()?, path.get(1)?) else { return None };
    if f[*a].k != "assets" || path.len() == 2 {
        return None;
    }
    let J::Arr(assets) = &f[*a].v else { return None };
    let J::Obj(fs) = &assets[*i] else { return None };
    if let Some(Step::Field(k)) = path.get(2)
        && fs[*k].k == "id"
    {
        return None;
    }
    fs.iter().find(|x| x.k == "id").and_then(|x| match &x.v {
        J::Str(s) => Some(s.clone()),
        _ => None,
    })
}

pub const P20: Check = Check {
    id: "P20",
    quick: 40_000,
    thorough: 1_500_000,
    rule: "every case is a valid document with exactly one defect; distinct by defect and document text",
    assumptions: &["the required properties and enumeration codes are those of the Lottie format restricted to the schema's layer, shape and asset kinds"],
    run: |src, ctx| {
        let mut p = Prof::all();
        p.layers = (1, 2, 4);
        p.anim = src.pick(&[10, 50]);
        p.split = src.pick(&[15, 60]);
        p.bm = 40;
        p.matte = 25;
        p.mask = 30;
        p.image_assets = 30;
        p.assets = src.pick(&[0, 3]);
        p.shapes[10] = 12;
        let comp = r#gen::comp(src, &p);
        let ea = src.pick(&[Extras::None, Extras::Full]);
        let good = enc::encode(&comp, src, ea, 15);
        let mut j = good.clone();
        let mut all: Vec<Vec<Step>> = vec![];
        let in_assets = src.pct(50);
        let pick = |src: &mut Src, all: &mut Vec<Vec<Step>>, want: &dyn Fn(&[Step], &J) -> bool| -> Option<Vec<Step>> {
            all.clear();
            good.walk(&mut vec![], &mut |p, n| {
                if want(p, n) {
                    all.push(p.to_vec());
                }
            });
            if in_assets && all.iter().any(|p| asset_of(&good, p).is_some()) {
                all.retain(|p| asset_of(&good, p).is_some());
            }
            if all.is_empty() { None } else { Some(all[src.usize(0, all.len() - 1)].clone()) }
        };
        let kind = src.weighted(&[35, 25, 30, 10]);
        let (text, what, at) = match kind {
            0 => {
                // a required property is missing
                let Some(p) = pick(src, &mut all, &|_, n| matches!(n, J::Obj(f) if f.iter().any(|f| f.req))) else { return Ok(()) };
                let J::Obj(f) = j.at_mut(&p) else { unreachable!() };
                let req: Vec<usize> = (0..f.len()).filter(|k| f[*k].req).collect();
                let k = req[src.usize(0, req.len() - 1)];
                let mut full = p.clone();
                full.push(Step::Field(k));
                let name = path_text(&good, &full);
                f.remove(k);
                ctx.tag("missing");
                (j.text(), format!("without the required {name}"), full)
            }
            1 => {
                // an unknown enumeration code
                let Some(p) = pick(src, &mut all, &|_, n| matches!(n, J::Code(_) | J::SCode(_) | J::B01(_))) else { return Ok(()) };
                let v = match j.at(&p) {
                    J::Code(_) => {
                        let key = match p.last() {
                            Some(Step::Field(k)) => match good.at(&p[..p.len() - 1]) {
                                J::Obj(f) => f[*k].k.as_str(),
                                _ => "",
                            },
                            _ => "",
                        };
                        // codes next to the known ones
                        let next: &[i64] = match key {
                            "ty" => &[5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
                            "lc" | "lj" => &[0, 4],
                            "tt" => &[5, 6],
                            "bm" => &[18, 19],
                            "sy" => &[0, 3],
                            _ => &[18],
                        };
                        let v = if src.pct(60) { src.pick(next) } else { src.pick(&[-1i64, 18, 99, 255, 256, 1000, 257, 65536, 4294967296]) };
                        serde_json::json!(v)
                    }
                    J::B01(_) => serde_json::json!(src.pick(&[2i64, 3, -1, 255, 256, 257])),
                    _ => serde_json::json!(src.pick(&["zz", "", "GR", "gr ", "text", "no", "é"])),
                };
                let name = path_text(&good, &p);
                let what = format!("with {name} = {v}");
                *j.at_mut(&p) = J::Any(v);
                ctx.tag("code");
                (j.text(), what, p)
            }
            2 => {
                // a value of the wrong type
                let Some(p) = pick(src, &mut all, &|p, n| !p.is_empty() && !matches!(n, J::Any(_))) else { return Ok(()) };
                let old = j.at(&p).clone();
                let mut opts = vec![];
                let push = |o: &mut Vec<Value>, v: Value| o.push(v);
                if !matches!(old, J::Str(_) | J::SCode(_)) {
                    push(&mut opts, serde_json::json!("abc"));
                }
                if !matches!(old, J::Bool(_)) {
                    push(&mut opts, serde_json::json!(true));
                }
                if !matches!(old, J::Obj(_)) {
                    push(&mut opts, serde_json::json!({}));
                }
                // a list with one number in place of its one keyframe is a constant
                let sole_key = matches!(old, J::Obj(_)) && matches!(good.at(&p[..p.len() - 1]), J::Arr(a) if a.len() == 1);
                if !sole_key && !matches!(old, J::Real(_) | J::Int(_) | J::Code(_) | J::B01(_) | J::Arr(_)) {
                    // (not a small one: in place of a shape's type name serde takes it for the number of a variant)
                    push(&mut opts, serde_json::json!(if matches!(old, J::SCode(_)) { 99 } else { 7 }));
                }
                if matches!(old, J::Int(_) | J::Code(_) | J::B01(_)) {
                    push(&mut opts, serde_json::json!(1.5));
                }
                let v = opts[src.usize(0, opts.len() - 1)].clone();
                let name = path_text(&good, &p);
                let what = format!("with {name} = {v}");
                *j.at_mut(&p) = J::Any(v);
                ctx.tag("type");
                (j.text(), what, p)
            }
            _ => {
                let t = good.text();
                let mut n = src.usize(0, t.len() - 1);
                while !t.is_char_boundary(n) {
                    n -= 1;
                }
                ctx.tag("cut");
                (t[..n].to_string(), format!("cut off after {n} bytes"), vec![])
            }
        };
        ctx.input(format!("{what}: {text}"));
        ctx.nontrivial = true;
        match sut(|| Composition::from_slice(text.as_bytes())) {
            Ok(_) => fail(format!("a document {what} is accepted")),
            Err(e) => {
                let m = sut(|| e.to_string());
                if m.trim().is_empty() {
                    return fail(format!("the error for a document {what} says nothing"));
                }
                if kind != 3
                    && let Some(id) = asset_of(&good, &at)
                {
                    ctx.tag("in-asset");
                    if !m.contains(&id) && !m.contains(&format!("{id:?}")) {
                        return fail(format!("the error for a document {what} does not name asset {id:?}: {m}"));
                    }
                }
                Ok(())
            }
        }
    },
};

// ---- P27 ----

fn mix(code: u8) -> peniko::BlendMode {
    use peniko::Mix::*;
    let m = [Normal, Multiply, Screen, Overlay, Darken, Lighten, ColorDodge, ColorBurn, HardLight, SoftLight, Difference, Exclusion, Hue, Saturation, Color, Luminosity];
    m[code as usize].into()
}

fn layers_match(src: &mut Src, doc: &[Layer], got: &[velato::model::Layer], at: &str) -> R {
    if doc.len() != got.len() {
        return fail(format!("{at}: {} layers instead of {}", got.len(), doc.len()));
    }
    for (k, (d, g)) in doc.iter().zip(got).enumerate() {
        let at = format!("{at} layer {k}");
        if g.name != d.name.clone().unwrap_or_default() {
            return fail(format!("{at}: name {:?} instead of {:?}", g.name, d.name));
        }
        if g.frames.start != d.ip || g.frames.end != d.op {
            return fail(format!("{at}: frames {:?} instead of {}..{}", g.frames, d.ip, d.op));
        }
        if g.stretch != d.sr.unwrap_or(1.0) {
            return fail(format!("{at}: stretch {} instead of {:?}", g.stretch, d.sr));
        }
        if g.start_frame != d.st.unwrap_or(0.0) {
            return fail(format!("{at}: start frame {} instead of {:?}", g.start_frame, d.st));
        }
        if let Kind::Precomp { w, h, .. } = &d.kind
            && (g.width != *w || g.height != *h)
        {
            return fail(format!("{at}: size {}x{} instead of {w}x{h}", g.width, g.height));
        }
        let ok = match d.bm.unwrap_or(0) {
            0 => g.blend_mode.is_none() || g.blend_mode == Some(mix(0)),
            16 => g.blend_mode.is_some_and(|b| matches!(b.compose, peniko::Compose::Plus | peniko::Compose::PlusLighter)),
            17 => g.blend_mode.is_none_or(|b| b.compose == peniko::Compose::SrcOver),
            c => g.blend_mode == Some(mix(c)),
        };
        if !ok {
            return fail(format!("{at}: blend mode {:?} for code {:?}", g.blend_mode, d.bm));
        }
        let masks: Vec<&Mask> = d.masks.iter().flatten().filter(|m| m.path.is_some()).collect();
        if masks.len() != g.masks.len() {
            return fail(format!("{at}: {} masks instead of {}", g.masks.len(), masks.len()));
        }
        for (n, (m, gm)) in masks.iter().zip(&g.masks).enumerate() {
            let mut ts = vec![];
            r#gen::layer_times(d, &mut ts);
            ts.sort_by(f64::total_cmp);
            let f = r#gen::frame(src, &ts, false);
            let path = m.path.as_ref().unwrap();
            let mut els = vec![];
            sut(|| gm.geometry.evaluate(f, &mut els));
            let cs = contours(&els);
            crate::eval::ill_conditioned();
            let want = crate::eval::path_at(path, f).map(|b| bez_outline(&b)).unwrap_or(Outline::Empty);
            let tol = if crate::eval::ill_conditioned() { 1e-2 } else { 1e-6 };
            if cs.len() != outline_count(&want) || (!cs.is_empty() && matches(&want, &cs[0], tol).is_err()) {
                return fail(format!("{at}: outline of mask {n} at frame {f} is {els:?}"));
            }
            let o = m.o.as_ref().map(|o| crate::eval::eval(o, f)).unwrap_or(100.0);
            let got = sut(|| gm.opacity.evaluate(f));
            if (o - got).abs() > 0.02 {
                return fail(format!("{at}: opacity of mask {n} at frame {f} is {got} instead of {o}"));
            }
        }
        use velato::model::Content;
        let ok = match (&d.kind, &g.content) {
            (Kind::Precomp { ref_id, .. }, Content::Instance { name, .. }) => d.hidden == Some(true) || name == ref_id,
            (Kind::Precomp { .. }, Content::None) => d.hidden == Some(true),
            (Kind::Shape(_), Content::Shape(_)) => true,
            (Kind::Shape(_), Content::None) => d.hidden == Some(true),
            (Kind::Null | Kind::Solid { .. } | Kind::Image { .. }, Content::None) => true,
            _ => false,
        };
        if !ok {
            return fail(format!("{at}: content {:?}", g.content));
        }
    }
    Ok(())
}

pub const P27: Check = Check {
    id: "P27",
    quick: 30_000,
    thorough: 1_000_000,
    rule: "a case counts when the document has two layers or an asset; distinct by document text",
    assumptions: &["blend mode codes follow the Lottie documentation; the code for hard mix, which the renderer's model cannot express, may be reported as normal"],
    run: |src, ctx| {
        let mut p = Prof::broad();
        p.image_assets = 35;
        p.bm = 60;
        p.mask = 30;
        p.anim = src.pick(&[0, 40]);
        p.shapes = [0, 30, 0, 0, 0, 0, 0, 0, 0, 0, 0];
        p.items = (0, 1, 2);
        p.stretch = 60;
        let comp = r#gen::comp(src, &p);
        let text = enc::encode(&comp, src, Extras::Meta, 10).text();
        ctx.input(text.clone());
        ctx.nontrivial = comp.layers.len() >= 2 || comp.assets.iter().flatten().count() > 0;
        let c = import(&text)?;
        if c.frames.start != comp.ip || c.frames.end != comp.op {
            return fail(format!("frames {:?} instead of {}..{}", c.frames, comp.ip, comp.op));
        }
        if c.frame_rate != comp.fr {
            return fail(format!("frame rate {} instead of {}", c.frame_rate, comp.fr));
        }
        if c.width != comp.w || c.height != comp.h {
            return fail(format!("size {}x{} instead of {}x{}", c.width, c.height, comp.w, comp.h));
        }
        layers_match(src, &comp.layers, &c.layers, "composition")?;
        let mut ids: Vec<&str> = vec![];
        for a in comp.assets.iter().flatten() {
            match a {
                Asset::Precomp { id, .. } => {
                    ids.push(id);
                    let Some(g) = c.assets.get(id) else { return fail(format!("asset {id:?} is missing")) };
                    layers_match(src, comp.asset(id).unwrap(), g, &format!("asset {id:?}"))?;
                }
                Asset::Image { .. } => ctx.tag("image"),
            }
        }
        // an image may be kept under its own id, but only without layers
        for (k, v) in &c.assets {
            if !ids.contains(&k.as_str()) && !v.is_empty() {
                return fail(format!("asset {k:?} is not in the document"));
            }
        }
        Ok(())
    },
};
